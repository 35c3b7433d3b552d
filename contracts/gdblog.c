/* Layout of the private structures of GdbLogParser.c, taken from the real source by the compiler. */
#include "GdbLogParser.c"
const long vf_gdblog[] = { sizeof(ParseResults), offsetof(ParseResults, address), offsetof(ParseResults, values), offsetof(ParseResults, valueCount),
    offsetof(ParseResults, registerOffset), offsetof(ParseResults, registerValue), offsetof(ParseResults, type), sizeof(((ParseResults*)0)->type),
    TYPE_OTHER, TYPE_MEMORY, TYPE_REGISTER, ARRAY_SIZE(((ParseResults*)0)->values) };
