#include "string"
