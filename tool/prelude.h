/* The solver configurations with MA27/MA57 use a bare `throw;`; the analysed IR is built without exceptions. */
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#define throw __builtin_abort()
