#include "lazysegtree"
