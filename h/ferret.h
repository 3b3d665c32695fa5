// The library's C headers, with the C ABI: its `bool` is an unsigned int.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <cwchar>
#include <cwctype>
#include <climits>
#include <cfloat>
#include <cmath>
#include <pthread.h>
#include <sys/types.h>
#include <setjmp.h>
typedef unsigned int fbool;
extern "C" {
#define bool fbool
#include "global.h"
#include "except.h"
#include "threading.h"
#include "hash.h"
#include "hashset.h"
#include "bitvector.h"
#include "priorityqueue.h"
#include "array.h"
#include "mempool.h"
#include "multimapper.h"
#include "similarity.h"
#include "document.h"
#include "store.h"
#include "analysis.h"
#include "index.h"
#include "search.h"
#include "ind.h"
#undef bool
#undef true
#undef false
}
