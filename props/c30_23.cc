/* Part of C30: operations of C23 */
#define property property_c23
#include "c23.cc"
