#include "convolution"
