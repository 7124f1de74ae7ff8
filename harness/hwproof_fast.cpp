// hwproof.cpp with quick proofs: see KNOWN_ORDER there
#define KNOWN_ORDER 1
#include "hwproof.cpp"
