/* arguments of the variadic functions of the runtime become calls which the analysis follows */
#include_next <stdarg.h>
#ifdef va_arg
#undef va_arg
#undef va_start
#undef va_end
#undef va_copy
#define va_start(ap, last) __rt_va_start()
#define va_end(ap) __rt_va_end()
#define va_copy(a, b) __rt_va_copy()
#define va_arg(ap, T) (*(T *)__rt_va(sizeof(T), __builtin_classify_type(*(T *)0)))
#ifdef __cplusplus
extern "C" {
#endif
void __rt_va_start(void); void __rt_va_end(void); void __rt_va_copy(void); void *__rt_va(unsigned long, int);
#ifdef __cplusplus
}
#endif
#endif
