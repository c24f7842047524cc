// Wrapper: the program's main becomes an entry point of a shared object.
#define main verif_program_main
#include VERIF_PROGRAM
#undef main
static int verif_call(int (*f)(), int, char **) { return f(); }
static int verif_call(int (*f)(int, char **), int c, char **v) { return f(c, v); }
static int verif_call(int (*f)(int, const char **), int c, char **v) { return f(c, (const char **)v); }
extern "C" __attribute__((visibility("default"))) int verif_run(int c, char **v) { return verif_call(&verif_program_main, c, v); }
