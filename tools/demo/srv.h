#include <atmi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <xa.h>
extern "C" { extern struct xa_switch_t tmnull_switch; extern int _tmbuilt_with_thread_option; int _tmrunserver(int);}
#define MAIN(...) MAINX(tmnull_switch, __VA_ARGS__)
#define MAINX(SW, ...) \
static struct tmdsptchtbl_t tbl_[] = {__VA_ARGS__, {NULL, NULL, NULL, 0, 0, NULL}}; \
static struct tmsvrargs_t args_ = {&SW, tbl_, 0, tpsvrinit, tpsvrdone, _tmrunserver, NULL, NULL, NULL, NULL, tprminit, tpsvrthrinit, tpsvrthrdone, NULL}; \
struct tmsvrargs_t *_tmgetsvrargs() { return &args_; } \
int main(int c, char **v) { _tmbuilt_with_thread_option = 0; return _tmstartserver(c, v, _tmgetsvrargs()); }
#define S(n) {#n, #n, n, 0, 0, NULL}
