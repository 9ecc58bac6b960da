/* Part of C30: operations of C24 */
#define property property_c24
#include "c24.cc"
