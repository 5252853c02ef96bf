#include "maxflow"
