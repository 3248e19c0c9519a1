/* Definitions of the hook pointers, for analyses that do not include libmocks or main/MockDefaults.c. */
#include "mdl.h"
void* mdl_malloc(size_t size);
void* mdl_realloc(void* ptr, size_t size);
void  mdl_free(void* ptr);
FILE* mdl_fopen(const char* filename, const char* mode);
int   mdl_fclose(FILE* f);
size_t mdl_fread(void* ptr, size_t size, size_t nitems, FILE* f);
int   mdl_fseek(FILE* f, long offset, int whence);
long  mdl_ftell(FILE* f);
char* mdl_fgets(char* str, int size, FILE* f);
int   mdl_printf(const char* pFmt, ...);
int   mdl_fprintf(FILE* f, const char* pFmt, ...);
FILE*  (*hook_fopen)(const char* filename, const char* mode) = mdl_fopen;
int    (*hook_fclose)(FILE* stream) = mdl_fclose;
size_t (*hook_fread)(void* ptr, size_t size, size_t nitems, FILE* stream) = mdl_fread;
int    (*hook_fseek)(FILE* stream, long offset, int whence) = mdl_fseek;
long   (*hook_ftell)(FILE* stream) = mdl_ftell;
char*  (*hook_fgets)(char * str, int size, FILE * stream) = mdl_fgets;
void*  (*hook_malloc)(size_t size) = mdl_malloc;
void*  (*hook_realloc)(void* ptr, size_t size) = mdl_realloc;
void   (*hook_free)(void* ptr) = mdl_free;
int    (*hook_printf)(const char* pFormat, ...) = mdl_printf;
int    (*hook_fprintf)(FILE* pFile, const char* pFormat, ...) = mdl_fprintf;
