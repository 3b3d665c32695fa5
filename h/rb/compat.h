/* Ruby 3.2's headers define bool as a macro; Ferret has its own typedef. */
#include <ruby.h>
#undef bool
