#ifndef _POSIX4WIN_STUB_H_
#define _POSIX4WIN_STUB_H_
#include <signal.h>
#endif
