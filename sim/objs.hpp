// Obj implementation helper of the core group.  Include only from instrumented files.
#pragma once
#include "core.hpp"
#include "objs_base.hpp"
