// Stand-in for the header jrl-cmakemodules generates (absent here).
#pragma once
#define PROXSUITE_NLP_VERSION "0.11.0"
#define PROXSUITE_NLP_MAJOR_VERSION 0
#define PROXSUITE_NLP_MINOR_VERSION 11
#define PROXSUITE_NLP_PATCH_VERSION 0
#define PROXSUITE_NLP_VERSION_AT_LEAST(major, minor, patch)                    \
  (0 > major || (0 >= major && (11 > minor || (11 >= minor && 0 >= patch))))
#define PROXSUITE_NLP_DLLAPI
#define PROXSUITE_NLP_DLLIMPORT
#define PROXSUITE_NLP_DLLEXPORT
#define PROXSUITE_NLP_LOCAL
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI
#include "proxsuite-nlp/deprecated.hpp"
#include "proxsuite-nlp/warning.hpp"
