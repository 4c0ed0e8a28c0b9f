// tmloadcf, linked into the checker under another name
#define main tmloadcf_main
#include "tmloadcf.cpp"
