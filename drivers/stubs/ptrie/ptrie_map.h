#pragma once
#include "ptrie/ptrie.h"
