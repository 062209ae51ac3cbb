// Stand-in for the header jrl-cmakemodules generates (absent here).
#pragma once
#ifndef PROXSUITE_NLP_WARN
#define PROXSUITE_NLP_WARN(msg)
#endif
