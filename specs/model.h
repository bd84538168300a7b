#ifndef MODEL_H
#define MODEL_H
#include "ai.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <threads.h>
extern int ai_opt_malloc_fail, ai_opt_lock_fail, ai_opt_lock_off, ai_opt_os_ok, ai_opt_mmap;
extern uint64_t ai_locks_held, ai_fds_open;
#endif
