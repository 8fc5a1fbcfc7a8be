#include "lh.hpp"
std::map<const Tok *, int> *Tok::live; long Tok::nlive; long Tok::perval[64];
