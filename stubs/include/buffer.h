/* STUB (trusted): API of mri's Buffer, as used by mriPlatform.c. */
#ifndef _BUFFER_STUB_H_
#define _BUFFER_STUB_H_
#include <stddef.h>
#include <stdint.h>
typedef struct
{
    char* pStart;
    char* pEnd;
    char* pCurrent;
} Buffer;
void    Buffer_WriteChar(Buffer* pBuffer, char character);
void    Buffer_WriteByteAsHex(Buffer* pBuffer, uint8_t byte);
uint8_t Buffer_ReadByteAsHex(Buffer* pBuffer);
#endif
