// verification driver: only includes the real translation units
#include "PetriEngine/Stubborn/StubbornSet.cpp"
