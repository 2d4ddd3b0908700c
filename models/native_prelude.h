#include "prelude.h"
