#pragma once
#include "term.h"
#include <map>
#include <optional>
// Ring normaliser for real-arithmetic obligations. Throws NotPoly when the term leaves the fragment.
struct NotPoly : std::runtime_error { using std::runtime_error::runtime_error; };
// true: identity proved, false: not an identity of rational functions (over independent atoms)
bool polyEqual(T x,T y);
// collect (undecided) ITE condition atoms / divisors
void collectDivisors(T t,std::vector<T>&out);
