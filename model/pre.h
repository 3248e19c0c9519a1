/* Force-included before every analysed translation unit (see DESIGN.md, "Engine").
   It only redirects libc entry points to the executable models of mdl.c. */
#ifndef MDL_PRE_H
#define MDL_PRE_H
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <unistd.h>
#include <sys/select.h>
#include <stdint.h>

void mdl_uncaught(void);
#define __debugbreak() mdl_uncaught()

int           mdl_snprintf(char* pBuf, size_t size, const char* pFmt, ...);
int           mdl_vsnprintf(char* pBuf, size_t size, const char* pFmt, va_list args);
unsigned long mdl_strtoul(const char* p, char** ppEnd, int base);
long          mdl_strtol(const char* p, char** ppEnd, int base);
int           mdl_strcasecmp(const char* a, const char* b);
int           mdl_strncasecmp(const char* a, const char* b, size_t n);
int           mdl_strcmp(const char* a, const char* b);
int           mdl_strncmp(const char* a, const char* b, size_t n);
int           mdl_memcmp(const void* a, const void* b, size_t n);
int           mdl_isspace(int c);
int           mdl_isdigit(int c);
int           mdl_isxdigit(int c);
int           mdl_isalpha(int c);
int           mdl_isalnum(int c);
int           mdl_tolower(int c);
int           mdl_toupper(int c);
void*         mdl_memmove(void* d, const void* s, size_t n);
void*         mdl_memcpy(void* d, const void* s, size_t n);
void*         mdl_memset(void* d, int c, size_t n);
void          mdl_exit(int status);
#undef exit
#define exit mdl_exit

extern FILE mdl_std_file[3];    /* distinct from every file that is opened */
#undef stdin
#undef stdout
#undef stderr
#define stdin  (&mdl_std_file[0])
#define stdout (&mdl_std_file[1])
#define stderr (&mdl_std_file[2])
#undef snprintf
#define snprintf mdl_snprintf
#undef vsnprintf
#define vsnprintf mdl_vsnprintf
#undef strtoul
#define strtoul mdl_strtoul
#undef strtoull
#define strtoull mdl_strtoul
#undef strtol
#define strtol mdl_strtol
#undef strcasecmp
#define strcasecmp mdl_strcasecmp
#undef strncasecmp
#define strncasecmp mdl_strncasecmp
#undef strcmp
#define strcmp mdl_strcmp
#undef strncmp
#define strncmp mdl_strncmp
#undef memcmp
#define memcmp mdl_memcmp
#undef memmove
#define memmove mdl_memmove
#undef memcpy
#define memcpy mdl_memcpy
#undef memset
#define memset mdl_memset
#ifdef RETSPLIT
size_t        mdl_strlen(const char* p);
#undef strlen
#define strlen mdl_strlen
#endif
int           mdl_ferror(FILE* f);
void          mdl_clearerr(FILE* f);
#undef ferror
#define ferror mdl_ferror
#undef clearerr
#define clearerr mdl_clearerr
int           mdl_printf(const char* pFmt, ...);
int           mdl_fprintf(FILE* f, const char* pFmt, ...);
#undef printf
#define printf mdl_printf
#undef fprintf
#define fprintf mdl_fprintf
int           mdl_fputs(const char* s, FILE* f);
int           mdl_fputc(int c, FILE* f);
int           mdl_fflush(FILE* f);
#undef fputs
#define fputs mdl_fputs
#undef fputc
#define fputc mdl_fputc
#undef putc
#define putc mdl_fputc
#undef puts
#define puts(s) mdl_fputs((s), &mdl_std_file[1])
#undef putchar
#define putchar(c) mdl_fputc((c), &mdl_std_file[1])
#undef fflush
#define fflush mdl_fflush
#undef isspace
#define isspace mdl_isspace
#undef isdigit
#define isdigit mdl_isdigit
#undef isxdigit
#define isxdigit mdl_isxdigit
#undef isalpha
#define isalpha mdl_isalpha
#undef isalnum
#define isalnum mdl_isalnum
#undef tolower
#define tolower mdl_tolower
#undef toupper
#define toupper mdl_toupper
char*         mdl_strncpy(char* d, const char* s, size_t n);
char*         mdl_strcpy(char* d, const char* s);
#undef strncpy
#define strncpy mdl_strncpy
#undef strcpy
#define strcpy mdl_strcpy

/* the rest of string.h / ctype.h / stdio.h that a maintainer might reach for */
char*  mdl_strchr(const char* s, int c);
char*  mdl_strrchr(const char* s, int c);
char*  mdl_strstr(const char* s, const char* t);
char*  mdl_strpbrk(const char* s, const char* set);
size_t mdl_strspn(const char* s, const char* set);
size_t mdl_strcspn(const char* s, const char* set);
char*  mdl_strcat(char* d, const char* s);
char*  mdl_strncat(char* d, const char* s, size_t n);
char*  mdl_stpcpy(char* d, const char* s);
char*  mdl_strdup(const char* s);
char*  mdl_strtok_r(char* s, const char* set, char** ppSave);
char*  mdl_strtok(char* s, const char* set);
size_t mdl_strnlen(const char* s, size_t n);
void*  mdl_memchr(const void* s, int c, size_t n);
int    mdl_isprint(int c);
int    mdl_isgraph(int c);
int    mdl_iscntrl(int c);
int    mdl_isblank(int c);
int    mdl_isupper(int c);
int    mdl_islower(int c);
int    mdl_ispunct(int c);
int    mdl_abs(int v);
long   mdl_labs(long v);
void*  mdl_calloc(size_t n, size_t size);
int    mdl_feof(FILE* f);
int    mdl_fgetc(FILE* f);
void   mdl_rewind(FILE* f);
int    mdl_sprintf(char* pBuf, const char* pFmt, ...);
int    mdl_vsprintf(char* pBuf, const char* pFmt, va_list args);
int    mdl_vfprintf(FILE* f, const char* pFmt, va_list args);
int    mdl_vprintf(const char* pFmt, va_list args);
int    mdl_sscanf(const char* s, const char* pFmt, ...);
void   mdl_perror(const char* s);
char*  mdl_strerror(int e);
#undef strchr
#define strchr mdl_strchr
#undef index
#undef strrchr
#define strrchr mdl_strrchr
#undef strstr
#define strstr mdl_strstr
#undef strpbrk
#define strpbrk mdl_strpbrk
#undef strspn
#define strspn mdl_strspn
#undef strcspn
#define strcspn mdl_strcspn
#undef strcat
#define strcat mdl_strcat
#undef strncat
#define strncat mdl_strncat
#undef stpcpy
#define stpcpy mdl_stpcpy
#undef strdup
#define strdup mdl_strdup
#undef strtok_r
#define strtok_r mdl_strtok_r
#undef strtok
#define strtok mdl_strtok
#undef strnlen
#define strnlen mdl_strnlen
#undef memchr
#define memchr mdl_memchr
#undef isprint
#define isprint mdl_isprint
#undef isgraph
#define isgraph mdl_isgraph
#undef iscntrl
#define iscntrl mdl_iscntrl
#undef isblank
#define isblank mdl_isblank
#undef isupper
#define isupper mdl_isupper
#undef islower
#define islower mdl_islower
#undef ispunct
#define ispunct mdl_ispunct
#undef abs
#define abs mdl_abs
#undef labs
#define labs mdl_labs
#undef atoi
#define atoi(s) ((int)mdl_strtol((s), 0, 10))
#undef atol
#define atol(s) mdl_strtol((s), 0, 10)
#undef strtoll
#define strtoll mdl_strtol
#undef sprintf
#define sprintf mdl_sprintf
#undef vsprintf
#define vsprintf mdl_vsprintf
#undef vfprintf
#define vfprintf mdl_vfprintf
#undef vprintf
#define vprintf mdl_vprintf
#undef sscanf
#define sscanf mdl_sscanf
#undef perror
#define perror mdl_perror
#undef strerror
#define strerror mdl_strerror
#ifndef FILE_MODEL
#undef feof
#define feof mdl_feof
#undef fgetc
#define fgetc mdl_fgetc
#undef getc
#define getc mdl_fgetc
#undef rewind
#define rewind mdl_rewind
#endif
#ifndef HEAP_MODEL
#undef calloc
#define calloc mdl_calloc
#endif

/* for the analyses of the hook layer itself: the real functions are stand-ins defined by the harness or mdl.c */
#ifdef HEAP_MODEL
void* real_malloc(size_t size);
void* real_realloc(void* ptr, size_t size);
void* real_calloc(size_t n, size_t size);
void  real_free(void* ptr);
#define malloc  real_malloc
#define realloc real_realloc
#define calloc  real_calloc
#define free    real_free
#endif
#ifdef FILE_MODEL
FILE*  real_fopen(const char* filename, const char* mode);
int    real_fclose(FILE* stream);
int    real_fseek(FILE* stream, long offset, int whence);
long   real_ftell(FILE* stream);
size_t real_fwrite(const void* ptr, size_t size, size_t nitems, FILE* stream);
size_t real_fread(void* ptr, size_t size, size_t nitems, FILE* stream);
char*  real_fgets(char* str, int size, FILE* stream);
#define fopen  real_fopen
#define fclose real_fclose
#define fseek  real_fseek
#define ftell  real_ftell
#undef fwrite
#define fwrite real_fwrite
#define fread  real_fread
#define fgets  real_fgets
#endif
#ifdef POSIX_MODEL
ssize_t real_read(int fd, void* p, size_t n);
ssize_t real_write(int fd, const void* p, size_t n);
int     real_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t);
void    mdl_fd_zero(fd_set* s);
void    mdl_fd_set(int fd, fd_set* s);
void    mdl_fd_clr(int fd, fd_set* s);
int     mdl_fd_isset(int fd, fd_set* s);
#define read(fd, p, n) real_read(fd, p, n)
#define write(fd, p, n) real_write(fd, p, n)
#define select(n, r, w, e, t) real_select(n, r, w, e, t)
#undef FD_ZERO
#define FD_ZERO(s) mdl_fd_zero(s)
#undef FD_SET
#define FD_SET(fd, s) mdl_fd_set(fd, s)
#undef FD_CLR
#define FD_CLR(fd, s) mdl_fd_clr(fd, s)
#undef FD_ISSET
#define FD_ISSET(fd, s) mdl_fd_isset(fd, s)
#endif
#endif
