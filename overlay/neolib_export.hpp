#pragma once
// stands in for the header CMake generates (the library is linked statically into the harnesses)
#define NEOLIB_EXPORT
#define NEOLIB_NO_EXPORT
#define NEOLIB_DEPRECATED
#define NEOLIB_DEPRECATED_EXPORT
#define NEOLIB_DEPRECATED_NO_EXPORT
