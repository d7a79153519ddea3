// P09 with debug statements removed by XTR_NDEBUG
#define XTR_NDEBUG
#include "p09.cpp"
