/* Part of C30: operations of C04 */
#define property property_c04
#include "c04.cc"
