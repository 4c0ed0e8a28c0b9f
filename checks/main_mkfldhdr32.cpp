// the header generator, linked into the checker under another name
#define main mkfldhdr32_main
#include "mkfldhdr32.cpp"
