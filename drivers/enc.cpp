// verification driver: only includes the real translation units and forces emission of inline members
#include "PetriEngine/Structures/AlignedEncoder.cpp"
#include "PetriEngine/Structures/binarywrapper.cpp"
#include "PetriEngine/Structures/StateSet.h"
auto vp_use1 = &PetriEngine::Structures::EncodingStateSetInterface::markingStats;
auto vp_use2 = &ptrie::binarywrapper_t::cmp;
auto vp_use3 = &ptrie::binarywrapper_t::set;
auto vp_use4 = &ptrie::binarywrapper_t::at;
