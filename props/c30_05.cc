/* Part of C30: operations of C05 */
#define property property_c05
#include "c05.cc"
