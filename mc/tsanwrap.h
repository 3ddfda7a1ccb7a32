// -include'd into the library for C11: what the C library does to memory is seen, too
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <alloca.h>
#include <strings.h>
#include <dirent.h>
#define RT(r, f, a) r rt_##f a;
#ifdef __cplusplus
extern "C" {
#endif
RT(void *, malloc, (size_t)) RT(void *, calloc, (size_t, size_t)) RT(void *, realloc, (void *, size_t)) RT(void, free, (void *)) RT(char *, strdup, (const char *)) RT(char *, strndup, (const char *, size_t))
RT(size_t, strlen, (const char *)) RT(char *, strcpy, (char *, const char *)) RT(char *, strncpy, (char *, const char *, size_t)) RT(char *, strcat, (char *, const char *)) RT(char *, strncat, (char *, const char *, size_t)) RT(int, strcmp, (const char *, const char *)) RT(int, strncmp, (const char *, const char *, size_t)) RT(char *, strtok, (char *, const char *))
RT(void *, memcpy, (void *, const void *, size_t)) RT(void *, memmove, (void *, const void *, size_t)) RT(void *, memset, (void *, int, size_t)) RT(int, memcmp, (const void *, const void *, size_t))
RT(int, sprintf, (char *, const char *, ...)) RT(int, snprintf, (char *, size_t, const char *, ...)) RT(int, vsprintf, (char *, const char *, va_list)) RT(int, vsnprintf, (char *, size_t, const char *, va_list)) RT(int, fprintf, (FILE *, const char *, ...)) RT(int, sscanf, (const char *, const char *, ...))
RT(size_t, fread, (void *, size_t, size_t, FILE *)) RT(size_t, fwrite, (const void *, size_t, size_t, FILE *)) RT(void, qsort, (void *, size_t, size_t, int (*)(const void *, const void *)))
RT(int, pthread_mutex_lock, (pthread_mutex_t *)) RT(int, pthread_mutex_unlock, (pthread_mutex_t *)) RT(pthread_t, pthread_self, (void)) RT(int, gettid, (void))
#ifdef __cplusplus
}
#else
#undef strdup
#undef strndup
#define malloc rt_malloc
#define calloc rt_calloc
#define realloc rt_realloc
#define free rt_free
#define strdup rt_strdup
#define strndup rt_strndup
#define strlen rt_strlen
#define strcpy rt_strcpy
#define strncpy rt_strncpy
#define strcat rt_strcat
#define strncat rt_strncat
#define strcmp rt_strcmp
#define strncmp rt_strncmp
#define strtok rt_strtok
#define memcpy rt_memcpy
#define memmove rt_memmove
#define memset rt_memset
#define memcmp rt_memcmp
#define sprintf rt_sprintf
#define snprintf rt_snprintf
#define vsprintf rt_vsprintf
#define vsnprintf rt_vsnprintf
#define fprintf rt_fprintf
#define sscanf rt_sscanf
#define fread rt_fread
#define fwrite rt_fwrite
#define qsort rt_qsort
#define pthread_mutex_lock rt_pthread_mutex_lock
#define pthread_mutex_unlock rt_pthread_mutex_unlock
#define pthread_self rt_pthread_self
#define gettid rt_gettid
#endif
