#include "scc"
