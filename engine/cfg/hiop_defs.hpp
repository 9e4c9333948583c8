/* #undef HIOP_USE_GPU */
/* #undef HIOP_USE_CUDA */
/* #undef HIOP_USE_HIP */
#define HIOP_USE_MPI
/* #undef HIOP_USE_MAGMA */
/* #undef HIOP_USE_RAJA */
#define HIOP_USE_EIGEN
#define HIOP_DEEPCHECKS
/* #undef HIOP_SPARSE */
/* #undef HIOP_USE_COINHSL */
/* #undef HIOP_USE_STRUMPACK */
/* #undef HIOP_USE_PARDISO */
/* #undef HIOP_USE_RESOLVE */
/* #undef HIOP_USE_GINKGO */
/* #undef HIOP_USE_AXOM */
#define HIOP_VERSION  "1.1.0"
#define HIOP_VERSION_MAJOR 1
#define HIOP_VERSION_MINOR 1
#define HIOP_VERSION_PATCH 0

/// Date of build with the format "%Y-%m-%d"
#define HIOP_RELEASE_DATE "2026-11-12"

#include "hiop_types.h"
