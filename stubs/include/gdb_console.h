#ifndef _GDB_CONSOLE_STUB_H_
#define _GDB_CONSOLE_STUB_H_
#include <stdint.h>
void WriteStringToGdbConsole(const char* pString);
void WriteHexValueToGdbConsole(uint32_t value);
#endif
