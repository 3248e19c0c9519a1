prop = "C16"
needs = "a memory line with a long symbol (mangled or template name), longer than 127 characters"
breaks = "the line is cut, and the words behind the cut are lost or loaded truncated"
edits = {"libCrashDebug/src/GdbLogParser.c": [("    char             lineText[1024];", "    char             lineText[128];")]}
mode = "core"
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    putText("l", "0x10000000 <_ZNSt6vectorISt4pairIKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiESaIS8_EE17_M_realloc_insertIJS8_EEEvN9__gnu_cxx17__normal_iteratorIPS8_SA_EEDpOT_>:\t0x00000001\t0x00000002\n");
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x10000004) == 2));
    CHECK(code == 0);
    DONE();
}
'''
