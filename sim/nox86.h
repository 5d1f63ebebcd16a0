/* "portable" build: the system headers first, then no x86 for the library's own code paths */
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#undef __x86_64__
#undef __amd64__
#undef __i386__
