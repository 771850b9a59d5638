/* Runtime of the variant "ub": run-time errors of gfortran (-fcheck=all) become traps at the call
 * under test instead of ending the process with a message. */
#include <stdlib.h>
void _gfortran_runtime_error_at(const char* w, const char* m, ...) { (void)w; (void)m; __builtin_trap(); }
void _gfortran_runtime_error(const char* m, ...) { (void)m; __builtin_trap(); }
void _gfortran_runtime_warning_at(const char* w, const char* m, ...) { (void)w; (void)m; __builtin_trap(); }
void _gfortran_os_error_at(const char* w, const char* m, ...) { (void)w; (void)m; __builtin_trap(); }
