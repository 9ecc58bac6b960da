/* Part of C30: operations of C12 */
#define property property_c12
#include "c12.cc"
