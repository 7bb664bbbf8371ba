// verification driver: only includes the real translation units
#include "PetriEngine/PQL/Expressions.cpp"
#include "PetriEngine/PetriNet.cpp"
#include "PetriEngine/Stubborn/StubbornSet.cpp"
#include "PetriEngine/Stubborn/InterestingTransitionVisitor.cpp"
#include "PetriEngine/Stubborn/ReachabilityStubbornSet.cpp"
// make the vtables and inline members that these units do not emit by themselves available
void* vp_use1(const shared_const_string& s) { return new PetriEngine::PQL::IdentifierExpr(s); }
void* vp_use2(const PetriEngine::PetriNet& n) { return new PetriEngine::ReachabilityStubbornSet(n, true); }
void* vp_use3() { return new PetriEngine::PQL::EFCondition(std::shared_ptr<PetriEngine::PQL::Condition>()); }
void* vp_use4(const shared_const_string& s) { return new PetriEngine::PQL::UnfoldedIdentifierExpr(s); }
void* vp_use5(int x) { return new PetriEngine::PQL::LiteralExpr(x); }
void* vp_use6(const PetriEngine::PQL::Condition_ptr& c) { return new PetriEngine::PQL::FCondition(c); }
void* vp_use7(const PetriEngine::PQL::Condition_ptr& c) { return new PetriEngine::PQL::ECondition(c); }
