// tmunloadcf, linked into the checker under another name
#define main tmunloadcf_main
#include "tmunloadcf.cpp"
