#include "dsu"
