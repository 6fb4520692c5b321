// the assertions of Eigen, in a build where those of the program are off, as they are when it is shipped
#include <cstdio>
#include <cstdlib>
#define eigen_assert(x) do { if (!(x)) { fprintf(stderr, "Assertion `%s' failed.\n", #x); abort(); } } while (0)
