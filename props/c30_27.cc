/* Part of C30: operations of C27 */
#define property property_c27
#include "c27.cc"
