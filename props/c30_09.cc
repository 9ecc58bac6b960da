/* Part of C30: operations of C09 */
#define property property_c09
#include "c09.cc"
