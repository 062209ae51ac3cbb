// Stand-in for the header jrl-cmakemodules generates (absent here).
#pragma once
#ifndef PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(msg)
#define PROXSUITE_NLP_DEPRECATED_HEADER(msg)
#endif
#ifndef PROXSUITE_NLP_PRAGMA
#define PROXSUITE_NLP_PRAGMA(x)
#endif
