#include "fenwicktree"
