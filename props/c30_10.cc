/* Part of C30: operations of C10 */
#define property property_c10
#include "c10.cc"
