#pragma once
#include <iostream>
#define SM_DEBUG_STREAM(X) do { } while (false)
#define SM_INFO_STREAM(X) do { } while (false)
#define SM_WARN_STREAM(X) do { } while (false)
#define SM_ERROR_STREAM(X) do { } while (false)
