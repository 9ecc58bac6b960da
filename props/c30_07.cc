/* Part of C30: operations of C07 */
#define property property_c07
#include "c07.cc"
