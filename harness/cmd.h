/* running the command line on model files */
#include <CrashDebugCommandLine.h>
#include <CrashCatcher.h>
#include <string.h>
static CrashDebugCommandLine cl;
static const char* args[200]; static int argn;
static void arg(const char* s) { args[argn++] = s; }
static int init(void)
{
    int code = 0;
    memset(&cl, 0xA5, sizeof(cl));      /* the caller's object is not initialised */
    CATCHING(code, CrashDebugCommandLine_Init(&cl, argn, args));
    return code;
}
static void file(const char* name, const uint8_t* data, long size)
{
    mdl_files[mdl_file_count].name = name; mdl_files[mdl_file_count].data = data; mdl_files[mdl_file_count].size = size; mdl_file_count++;
}
static int mapped_(IMemory* m, uint32_t a)
{
    int code = 0;
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1));
    return code == 0;
}
static const uint8_t image[16] = {0x00, 0x80, 0x00, 0x20, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
