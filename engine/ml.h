/* Force-included into the code under test: the C library calls it makes are redirected to the
 * small, instrumentable library in minilibc.c (in-memory files, exit trapping, plain loops). */
#ifndef ML_H
#define ML_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <stdarg.h>
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <setjmp.h>
#include <time.h>
#include <getopt.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <stdnoreturn.h>
#include "symrt.h"
#ifdef VH_TAG
int VH_TAG = 1; /* keeps the units of two variants of one tool apart */
#endif
typedef struct ml_file { char *name; char *data; size_t len, cap, pos; int open, wr, err, eof, pushed; } ml_FILE;
typedef struct { long p; } ml_fpos;
#ifdef __cplusplus
extern "C" {
#endif
extern ml_FILE *ml_stdin, *ml_stdout, *ml_stderr;
size_t ml_strlen(const char *); char *ml_strcpy(char *, const char *); char *ml_strncpy(char *, const char *, size_t);
char *ml_strcat(char *, const char *); char *ml_strncat(char *, const char *, size_t); int ml_strcmp(const char *, const char *); int ml_strncmp(const char *, const char *, size_t);
int ml_strcasecmp(const char *, const char *); int ml_strncasecmp(const char *, const char *, size_t);
char *ml_strchr(const char *, int); char *ml_strrchr(const char *, int); char *ml_strstr(const char *, const char *); char *ml_strdup(const char *); char *ml_strndup(const char *, size_t);
size_t ml_strspn(const char *, const char *); size_t ml_strcspn(const char *, const char *); char *ml_strpbrk(const char *, const char *); size_t ml_strnlen(const char *, size_t);
char *ml_strtok(char *, const char *); char *ml_strerror(int);
void *ml_memcpy(void *, const void *, size_t); void *ml_memmove(void *, const void *, size_t); void *ml_memset(void *, int, size_t); int ml_memcmp(const void *, const void *, size_t); void *ml_memchr(const void *, int, size_t);
int ml_isalpha(int); int ml_isdigit(int); int ml_isalnum(int); int ml_isspace(int); int ml_isupper(int); int ml_islower(int); int ml_isprint(int); int ml_isxdigit(int); int ml_ispunct(int); int ml_iscntrl(int); int ml_isgraph(int); int ml_isblank(int);
int ml_toupper(int); int ml_tolower(int);
void *ml_malloc(size_t); void *ml_calloc(size_t, size_t); void *ml_realloc(void *, size_t); void ml_free(void *); void *ml_reallocarray(void *, size_t, size_t);
void ml_qsort(void *, size_t, size_t, int (*)(const void *, const void *)); void *ml_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *));
int ml_atoi(const char *); long ml_strtol(const char *, char **, int); unsigned long ml_strtoul(const char *, char **, int); double ml_strtod(const char *, char **); int ml_abs(int); long ml_atol(const char *);
int ml_printf(const char *, ...); int ml_fprintf(ml_FILE *, const char *, ...); int ml_sprintf(char *, const char *, ...); int ml_snprintf(char *, size_t, const char *, ...);
int ml_vprintf(const char *, va_list); int ml_vfprintf(ml_FILE *, const char *, va_list); int ml_vsprintf(char *, const char *, va_list); int ml_vsnprintf(char *, size_t, const char *, va_list);
ml_FILE *ml_fopen(const char *, const char *); ml_FILE *ml_fdopen(int, const char *); ml_FILE *ml_tmpfile(void); int ml_mkstemp(char *); int ml_fclose(ml_FILE *); int ml_fflush(ml_FILE *); ml_FILE *ml_freopen(const char *, const char *, ml_FILE *);
int ml_getc(ml_FILE *); int ml_getchar(void); int ml_ungetc(int, ml_FILE *); int ml_putc(int, ml_FILE *); int ml_putchar(int); int ml_puts(const char *); int ml_fputs(const char *, ml_FILE *); char *ml_fgets(char *, int, ml_FILE *);
size_t ml_fread(void *, size_t, size_t, ml_FILE *); size_t ml_fwrite(const void *, size_t, size_t, ml_FILE *);
int ml_fseek(ml_FILE *, long, int); long ml_ftell(ml_FILE *); void ml_rewind(ml_FILE *); int ml_feof(ml_FILE *); int ml_ferror(ml_FILE *); void ml_clearerr(ml_FILE *); int ml_fgetpos(ml_FILE *, ml_fpos *); int ml_fsetpos(ml_FILE *, const ml_fpos *);
int ml_access(const char *, int); int ml_unlink(const char *); int ml_chmod(const char *, unsigned); unsigned ml_umask(unsigned); int ml_rename(const char *, const char *);
char *ml_getenv(const char *); void ml_exit(int) __attribute__((noreturn)); void ml_abort(void) __attribute__((noreturn)); void ml_assert_fail(const char *, const char *, unsigned) __attribute__((noreturn));
void (*ml_signal(int, void (*)(int)))(int); int ml_atexit(void (*)(void)); int ml_system(const char *); void ml_perror(const char *);
int ml_getopt(int, char *const *, const char *); extern char *ml_optarg; extern int ml_optind, ml_opterr, ml_optopt;
/* harness side */
extern int ml_fail_at, ml_allocs, ml_live;
void mf_reset(void); void mf_put(const char *name, const char *data, size_t n); ml_FILE *mf_get(const char *name); void mf_unsound(const char *why);
#ifdef __cplusplus
}
#endif
#ifndef ML_NO_RENAME
#undef strlen
#undef strcpy
#undef strncpy
#undef strcat
#undef strncat
#undef strcmp
#undef strncmp
#undef strchr
#undef strrchr
#undef strstr
#undef strdup
#undef strndup
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef isalpha
#undef isdigit
#undef isalnum
#undef isspace
#undef isupper
#undef islower
#undef isprint
#undef isxdigit
#undef toupper
#undef tolower
#undef getc
#undef putc
#undef getchar
#undef putchar
#undef feof
#undef ferror
#undef stdin
#undef stdout
#undef stderr
#undef assert
#undef errno
#define errno ml_errno
extern int ml_errno;
#define assert(e) ((e) ? (void)0 : ml_assert_fail(#e, __FILE__, __LINE__))
#undef __ASSERT_FUNCTION
#define FILE ml_FILE
#define fpos_t ml_fpos
#define stdin ml_stdin
#define stdout ml_stdout
#define stderr ml_stderr
#define strlen ml_strlen
#define strcpy ml_strcpy
#define strncpy ml_strncpy
#define strcat ml_strcat
#define strncat ml_strncat
#define strcmp ml_strcmp
#define strncmp ml_strncmp
#define strcasecmp ml_strcasecmp
#define strncasecmp ml_strncasecmp
#define strchr ml_strchr
#define strrchr ml_strrchr
#define strstr ml_strstr
#define strdup ml_strdup
#define strndup ml_strndup
#define strspn ml_strspn
#define strcspn ml_strcspn
#define strpbrk ml_strpbrk
#define strnlen ml_strnlen
#define strtok ml_strtok
#define strerror ml_strerror
#define memcpy ml_memcpy
#define memmove ml_memmove
#define memset ml_memset
#define memcmp ml_memcmp
#define memchr ml_memchr
#define isalpha ml_isalpha
#define isdigit ml_isdigit
#define isalnum ml_isalnum
#define isspace ml_isspace
#define isupper ml_isupper
#define islower ml_islower
#define isprint ml_isprint
#define isxdigit ml_isxdigit
#define ispunct ml_ispunct
#define iscntrl ml_iscntrl
#define isgraph ml_isgraph
#define isblank ml_isblank
#define toupper ml_toupper
#define tolower ml_tolower
#define malloc ml_malloc
#define calloc ml_calloc
#define realloc ml_realloc
#define reallocarray ml_reallocarray
#define free ml_free
#define qsort ml_qsort
#define bsearch ml_bsearch
#define atoi ml_atoi
#define atol ml_atol
#define strtol ml_strtol
#define strtoul ml_strtoul
#define strtod ml_strtod
#define abs ml_abs
#define printf ml_printf
#define fprintf ml_fprintf
#define sprintf ml_sprintf
#define snprintf ml_snprintf
#define vprintf ml_vprintf
#define vfprintf ml_vfprintf
#define vsprintf ml_vsprintf
#define vsnprintf ml_vsnprintf
#define fopen ml_fopen
#define fdopen ml_fdopen
#define freopen ml_freopen
#define tmpfile ml_tmpfile
#define mkstemp ml_mkstemp
#define fclose ml_fclose
#define fflush ml_fflush
#define getc ml_getc
#define fgetc ml_getc
#define getchar ml_getchar
#define ungetc ml_ungetc
#define putc ml_putc
#define fputc ml_putc
#define putchar ml_putchar
#define puts ml_puts
#define fputs ml_fputs
#define fgets ml_fgets
#define fread ml_fread
#define fwrite ml_fwrite
#define fseek ml_fseek
#define ftell ml_ftell
#define rewind ml_rewind
#define feof ml_feof
#define ferror ml_ferror
#define clearerr ml_clearerr
#define fgetpos ml_fgetpos
#define fsetpos ml_fsetpos
#define access ml_access
#define unlink ml_unlink
#define chmod ml_chmod
#define umask ml_umask
#define rename ml_rename
#define getenv ml_getenv
#define exit ml_exit
#define _exit ml_exit
#define _Exit ml_exit
#define abort ml_abort
#define signal ml_signal
#define atexit ml_atexit
#define system ml_system
#define perror ml_perror
#define getopt ml_getopt
#define optarg ml_optarg
#define optind ml_optind
#define opterr ml_opterr
#define optopt ml_optopt
#endif
#endif
