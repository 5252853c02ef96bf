#include "twosat"
