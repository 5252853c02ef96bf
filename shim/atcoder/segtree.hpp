#include "segtree"
