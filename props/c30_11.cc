/* Part of C30: operations of C11 */
#define property property_c11
#include "c11.cc"
