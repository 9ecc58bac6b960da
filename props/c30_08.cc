/* Part of C30: operations of C08 */
#define property property_c08
#include "c08.cc"
