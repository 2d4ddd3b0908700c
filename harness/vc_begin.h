#ifdef VC_NATIVE
#include "prelude.h"
#include "vc_native.h"
#else
#include "prelude.h"
#include "models.h"
#include "macros.h"
#endif
