/* STUB (trusted, not from /repo): the mri submodule is empty in this sandbox.  Only the exception codes which
   /repo/include/try_catch.h builds upon are provided here. */
#ifndef _MRI_TRY_CATCH_STUB_H_
#define _MRI_TRY_CATCH_STUB_H_
#define noException                         0
#define bufferOverrunException              1
#define invalidValueException               2
#define exceededHardwareResourcesException  3
#define invalidArgumentException            4
#define memFaultException                   5
#define invalidIndexException               6
#define notFoundException                   7
#define mriMaxException                     8
#endif
