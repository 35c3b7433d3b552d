/* Layout of the register context and the constants of the dump formats, taken from the real headers by the compiler. */
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <stddef.h>
const long vf_regs[] = { sizeof(RegisterContext), offsetof(RegisterContext, flags), offsetof(RegisterContext, R), offsetof(RegisterContext, exceptionPSR),
    offsetof(RegisterContext, FPR), MSP, PSP, TOTAL_REG_COUNT, TOTAL_FPREG_COUNT, FPSCR, (long)(unsigned)DEFAULT_SP_VALUE, CRASH_CATCHER_FLAGS_FLOATING_POINT,
    (long)(unsigned)CRASH_CATCHER_STACK_SENTINEL };
