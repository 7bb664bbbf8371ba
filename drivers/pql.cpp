// verification driver: only includes the real translation units
#include "PetriEngine/PQL/Evaluation.cpp"
#include "PetriEngine/PQL/Expressions.cpp"
#include "PetriEngine/PQL/PushNegation.cpp"
// make the vtables of classes that these units never construct available
void* vp_use1() { return new PetriEngine::PQL::GCondition(std::shared_ptr<PetriEngine::PQL::Condition>()); }
void* vp_use2(const shared_const_string& s) { return new PetriEngine::PQL::UnfoldedIdentifierExpr(s); }
void* vp_use3(const shared_const_string& s) { return new PetriEngine::PQL::IdentifierExpr(s); }
void* vp_use4() { return new PetriEngine::PQL::PathSelectExpr("", PetriEngine::PQL::Expr_ptr()); }
