/* Part of C30: operations of C16 */
#define property property_c16
#include "c16.cc"
