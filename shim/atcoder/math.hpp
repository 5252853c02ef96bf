#include "math"
