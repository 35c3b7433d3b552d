/* Uses of the real macros of /repo/include/try_catch.h, verified against the contract of a try construct.
   body(), mark() and the nd_* functions are external: body() has the contract of any code that may throw. */
#include <try_catch.h>
#include <stdlib.h>

int  nd_bool(void);
int  nd_code(void);
const char* nd_text(void);
void body(int which);
void mark(int where);

/* the throwing side */
void t_throw(int code) { __throw(code); }
void t_throw_msg(int code, const char* pText) { __throw_msg(code, "%s", pText); }
void t_throw_msg2(int code, const char* pText, int number) { __throw_msg(code, "Failed %s %d", pText, number); }

/* the catching side */
void t_try(void)
{
    __try
        body(1);
    __catch
    {
        mark(1);
    }
    mark(2);
}

void t_try_block(void)
{
    __try
    {
        mark(0);
        body(1);
        mark(3);
    }
    __catch
    {
        mark(1);
        clearExceptionCode();
    }
    mark(2);
}

void t_rethrow(void)
{
    __try
    {
        body(1);
    }
    __catch
    {
        mark(1);
        __rethrow;
    }
    mark(2);
}

void t_throw_in_catch(void)
{
    __try
    {
        body(1);
    }
    __catch
    {
        mark(1);
        body(2);
    }
    mark(2);
}

void t_nested(void)
{
    __try
    {
        __try
        {
            body(1);
        }
        __catch
        {
            mark(1);
            __rethrow;
        }
        mark(2);
        body(2);
        mark(3);
    }
    __catch
    {
        mark(4);
    }
    mark(5);
}

void t_sequence(void)
{
    __try
    {
        body(1);
    }
    __catch
    {
        mark(1);
    }
    mark(2);
    __try
    {
        body(2);
    }
    __catch
    {
        mark(3);
    }
    mark(4);
}

void t_nothrow(void)
{
    __try
    {
        body(1);
    }
    __catch
    {
        __nothrow;
    }
    mark(2);
}

int t_nothrow_and_return(int value)
{
    __try
    {
        body(1);
    }
    __catch
    {
        __nothrow_and_return(value);
    }
    mark(2);
    return value + 1;
}

/* a loop of try blocks and an abandoned inner try: throwing through several frames */
static void inner(void)
{
    __try
        body(1);
    __catch
        __rethrow;
}

void t_through(void)
{
    __try
    {
        inner();
        mark(3);
        __throw(nd_code());
    }
    __catch
    {
        mark(1);
    }
    mark(2);
}

int  t_code(void) { return getExceptionCode(); }
const char* t_message(void) { return getExceptionMessage(); }
void t_clear(void) { clearExceptionCode(); }
