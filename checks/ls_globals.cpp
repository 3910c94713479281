#include "ls_seam.hpp"
SIM_TLS LsFault g_ls;
SIM_TLS int g_lib = 0;
void (*g_yield)(int site) = nullptr;
