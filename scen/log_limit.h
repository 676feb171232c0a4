// Included before sc_log.c: the size at which a log file is rotated becomes a variable that a scenario can lower, so
// that one short run sees many rotations. The default is the value of the header. (check.py uses it only if sc_log.c
// still takes the limit from SC_LOG_FILE_SIZE as an expression.)
#include "sc_log.h"
__attribute__((weak)) int sim_log_limit = SC_LOG_FILE_SIZE;
#undef SC_LOG_FILE_SIZE
#define SC_LOG_FILE_SIZE sim_log_limit
