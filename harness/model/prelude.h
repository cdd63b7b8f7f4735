// glibc's declaration of strnlen carries an exception specification that clang (unlike g++) insists on repeating
#define strnlen glibc_strnlen_declaration
#include <string.h>
#undef strnlen
