#ifndef VP_LEPTON_WRAP
#define VP_LEPTON_WRAP
#include_next "Lepton.hh"
#endif
