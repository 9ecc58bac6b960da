/* Part of C30: operations of C22 */
#define property property_c22
#include "c22.cc"
