#ifndef _SEMIHOST_STUB_H_
#define _SEMIHOST_STUB_H_
int Semihost_IsDebuggeeMakingSemihostCall(void);
int Semihost_HandleSemihostRequest(void);
#endif
