#ifndef _TOKEN_H_
#define _TOKEN_H_
#include <stddef.h>
typedef struct
{
    const char* tokenPointers[10];
    const char* pTokenSeparators;
    size_t      tokenCount;
    char        copyOfString[65];
} Token;
#endif
