// Stand-in for KOGNAC's consts.h (the library is not available offline).
#ifndef SHIM_CONSTS_H
#define SHIM_CONSTS_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <climits>
#define DDLEXPORT
#define LIBEXP
#define DDLIMPORT
#define VERIF_KOGNAC_SHIM 1
typedef unsigned char tTerm;
typedef uint64_t nTerm;
static const std::string DIR_SEP = "/";
#define CDIR_SEP '/'
#define MAX_TERM_SIZE 32768
#define MAX_N_PATTERNS 10
#define DICT_HEURISTICS "heuristics"
#define DICT_HASH "hash"
#define DICT_SMART "smart"
#define PARSE_COUNTMIN 1
#define THRESHOLD_KEEP_MEMORY_SHIM 1
#endif
