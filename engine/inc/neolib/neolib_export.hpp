// Stand-in for the header CMake generates; static use, nothing exported.
#pragma once
#define NEOLIB_EXPORT
#define NEOLIB_NO_EXPORT
#define NEOLIB_DEPRECATED
#define NEOLIB_DEPRECATED_EXPORT
#define NEOLIB_DEPRECATED_NO_EXPORT
