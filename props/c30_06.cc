/* Part of C30: operations of C06 */
#define property property_c06
#include "c06.cc"
