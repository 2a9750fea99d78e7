// the schemes of the PSE vendor
#define TVC_E2E_PSE
#include "plonk_e2e.cc"
