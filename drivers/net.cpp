// verification driver: includes the real translation units and forces emission of inline members
#include "PetriEngine/SuccessorGenerator.cpp"
#include "PetriEngine/PetriNet.cpp"
#include "PetriEngine/ReducingSuccessorGenerator.cpp"
auto vp_use1 = &PetriEngine::SuccessorGenerator::fired;
auto vp_use2 = &PetriEngine::SuccessorGenerator::state;
bool vp_use3(PetriEngine::SuccessorGenerator& g, PetriEngine::Structures::State& w) { return g.PetriEngine::SuccessorGenerator::next(w); }
