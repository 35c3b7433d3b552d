#ifndef _TOKEN_STUB_H_
#define _TOKEN_STUB_H_
typedef struct Token { int dummy; } Token;
#endif
