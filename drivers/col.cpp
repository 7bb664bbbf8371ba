// Instantiates the colour interval code of /repo (no logic of its own).
#include "PetriEngine/Colored/Intervals.h"
#include "PetriEngine/Colored/IntervalGenerator.h"
#include "PetriEngine/Colored/GuardRestrictor.h"
using namespace PetriEngine::Colored;
namespace vpd {
    bool f(interval_t& a, interval_t& b, interval_vector_t& v, std::vector<bool>& d, std::vector<uint32_t>& ids, std::vector<size_t>& sz) {
        interval_t o = a.getOverlap(b); o = a.getOverlap(b, d); o |= b; v.addInterval(o); v.simplify(); v.restrict(2); v.combineNeighbours(); v.constrainLower(ids, true); v.constrainUpper(ids, true); v.applyModifier(1, sz);
        auto s = a.getSubtracted(b, d); auto p = interval_vector_t::shiftInterval(1, 2, 3, 4); v.append(v); v.getLowerIds();
        return a.isSound() && a.equals(b) && a.contains(b, d) && a.intersects(b) && v.contains(a, d) && v.hasValidIntervals() && a.getContainedColors() && v.getContainedColors() && s.size() && p.first && a.getLowerIds().size() && a.getCanonicalInterval().size();
    }
}
