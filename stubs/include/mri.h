#ifndef _MRI_STUB_H_
#define _MRI_STUB_H_
void __mriInit(const char* pDebuggerParameters);
#endif
