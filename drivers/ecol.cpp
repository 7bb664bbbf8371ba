// verification driver: only includes the real translation units of the explicit coloured engine and names the inline members they do not emit
#include "utils/structures/binarywrapper.h"
using ptrie::uchar;
#include "PetriEngine/ExplicitColored/ColoredEncoder.h"
#include "PetriEngine/ExplicitColored/FireabilityChecker.h"
#include "PetriEngine/ExplicitColored/ColoredPetriNet.cpp"
#include "PetriEngine/ExplicitColored/ArcCompiler.cpp"
#include "PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp"
#include "PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp"
using namespace PetriEngine::ExplicitColored;
namespace vpd {
    size_t ms(SequenceMultiSet& a, SequenceMultiSet& b, ColorSequence& c, std::vector<Color_t>& z, const ColorType& t) {
        a.setCount(c, 1); a.setCount(Color_t(1), 1); a.addCount(c, 1); a.addCount(Color_t(1), 1); a += b; a -= b; a *= 2; a.shrink(); a.fixNegative();
        ColorSequence d(z, t), e(z, z);
        return a.getCount(c) + (a == b) + (a <= b) + (a >= b) + a.getHighestCount() + a.totalCount() + c.decode(z, 1).size() + d.encodedValue + e.encodedValue;
    }
    size_t codec(std::vector<Color_t>& z) { IntegerPackCodec<uint64_t, Color_t> c(z); IntegerPackCodec<size_t, Color_t> d(z); return c.decode(1, 2) + c.addToValue(1, 2, 3) + c.getMax() + d.getMax() + d.decode(1, 2); }
    size_t enc(ColoredEncoder& e, const ColoredPetriNetMarking& m, const uchar* x) { auto k = e.decode(x); return e.encode(m) + k.markings.size(); }
    size_t succ(const ColoredSuccessorGenerator& g, ColoredPetriNetStateFixed& s, ColoredPetriNetStateEven& t) { auto a = g.next(s); auto b = g.next(t); g.shrinkState(1); return FireabilityChecker::canFire(g, 1, s.marking, 1) + FireabilityChecker::hasDeadlock(g, s.marking, 1); }
}
