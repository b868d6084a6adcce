// Shadows Boost.Atomic's inline-assembly "extra operations" so that the generic (builtin based, hence
// instrumentable) implementation in extra_ops_generic.hpp is used by boost::atomic<> in the simulated build.
#ifndef VERIF_SHIM_EXTRA_OPS_GCC_X86
#define VERIF_SHIM_EXTRA_OPS_GCC_X86
#endif
