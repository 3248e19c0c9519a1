#ifndef _BUFFER_H_
#define _BUFFER_H_
#include <stdint.h>
#include <stddef.h>
typedef struct
{
    char* pStart;
    char* pEnd;
    char* pCurrent;
} Buffer;
void    __mriBuffer_WriteChar(Buffer* pBuffer, char character);
void    __mriBuffer_WriteByteAsHex(Buffer* pBuffer, uint8_t byte);
uint8_t __mriBuffer_ReadByteAsHex(Buffer* pBuffer);
void    __mriBuffer_WriteString(Buffer* pBuffer, const char* pString);
#define Buffer_WriteChar __mriBuffer_WriteChar
#define Buffer_WriteByteAsHex __mriBuffer_WriteByteAsHex
#define Buffer_ReadByteAsHex __mriBuffer_ReadByteAsHex
#define Buffer_WriteString __mriBuffer_WriteString
#endif
