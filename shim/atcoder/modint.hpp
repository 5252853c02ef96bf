#include "modint"
