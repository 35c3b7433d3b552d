/* The exception codes, taken from the real headers by the compiler. */
#include <try_catch.h>
const long vf_codes[] = { fileException, fileFormatException, elfFormatException, outOfMemoryException, busErrorException,
    stackOverflowException, invalidArgumentException, bufferOverrunException };
