/* C30: the target description matches the registers that are transferred. */
#include "h.h"
#include "mri.h"

static const char* xml; static int at;
static int next(const char* s)      /* the text at the current position */
{
    int i;
    for (i = 0; s[i]; i++) if (xml[at + i] != s[i]) return 0;
    return 1;
}
static int eat(const char* s)
{
    int n = 0;
    if (!next(s)) return 0;
    while (s[n]) n++;
    at += n;
    return 1;
}
/* what GDB's ARM M-profile support expects */
static const char* const names[19] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp"};
static const char* const dnames[17] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "fpscr"};
static int open_features, features, regs_seen, bits, depth_target, last_regnum;
/* walks the description tag by tag; attributes in any order */
static void walk(int fp)
{
    while (xml[at]) {
        if (eat("<reg ")) {
            const char* name = regs_seen < 19 ? names[regs_seen] : dnames[regs_seen - 19];
            int named = 0, sized = 0, i, regnum = last_regnum + 1;
            OBLIGE(open_features == 1);
            OBLIGE(regs_seen < (fp ? 36 : 19));
            while (xml[at] != '>' && xml[at] != '/') {
                if (eat("name=\"")) {
                    for (i = 0; name[i]; i++) { OBLIGE(xml[at] == name[i]); at++; }
                    OBLIGE(xml[at] == '"'); at++; named++;
                }
                else if (eat("bitsize=\"")) {
                    int v = 0;
                    while (xml[at] >= '0' && xml[at] <= '9') v = v * 10 + (xml[at++] - '0');
                    OBLIGE(xml[at] == '"'); at++; sized++;
                    OBLIGE(v == (regs_seen >= 19 && regs_seen < 35 ? 64 : 32));
                    bits += v;
                }
                else if (eat("regnum=\"")) {
                    regnum = 0;
                    while (xml[at] >= '0' && xml[at] <= '9') regnum = regnum * 10 + (xml[at++] - '0');
                    OBLIGE(xml[at] == '"'); at++;
                }
                else if (xml[at] == '"') { at++; while (xml[at] != '"') { OBLIGE(xml[at] != 0); at++; } at++; }
                else { OBLIGE(xml[at] != 0); at++; }
            }
            OBLIGE(eat("/>"));
            OBLIGE(named == 1 && sized == 1);
            OBLIGE(regnum > last_regnum);           /* transfer order is number order */
            if (regs_seen < 16) OBLIGE(regnum == regs_seen);
            if (regs_seen == 16) OBLIGE(regnum == 25);
            last_regnum = regnum;
            regs_seen++;
        }
        else if (next("<feature ")) { OBLIGE(open_features == 0 && depth_target == 1); open_features++; features++; at++; }
        else if (eat("</feature>")) { OBLIGE(open_features == 1); open_features--; }
        else if (eat("<target>")) { OBLIGE(depth_target == 0); depth_target = 1; }
        else if (eat("</target>")) { OBLIGE(depth_target == 1 && open_features == 0); depth_target = 2; }
        else at++;
    }
}
static int contains(const char* s)
{
    for (at = 0; xml[at]; at++) if (next(s)) return 1;
    return 0;
}
/* both descriptions, compared with the register layout */
void t_description(void)
{
    int n = 0;
    PICK(fp, 2);
    platform();
    any_registers();
    regs.flags = (uint32_t)fp;
    xml = Platform_GetTargetXml();
    while (xml[n]) n++;
    OBLIGE(Platform_GetTargetXmlSize() == (uint32_t)n);
    OBLIGE(next("<?xml version=\"1.0\"?>"));
    OBLIGE(contains("<feature name=\"org.gnu.gdb.arm.m-profile\">"));
    OBLIGE(contains("<feature name=\"org.gnu.gdb.arm.m-system\">"));
    OBLIGE(contains("<feature name=\"org.gnu.gdb.arm.vfp\">") == fp);
    at = 0; last_regnum = -1;
    walk(fp);
    OBLIGE(depth_target == 2);
    OBLIGE(features == 2 + fp);
    OBLIGE(regs_seen == (fp ? 36 : 19));
    OBLIGE(bits == 32 * (TOTAL_REG_COUNT + (fp ? TOTAL_FPREG_COUNT : 0)));
    /* and that is what is transferred */
    packet_begin(sizeof(packet));
    Platform_CopyContextToBuffer(&buffer);
    OBLIGE(packet_len() * 4 == bits);
    MARK(described);
}
/* any other flag leaves the choice alone; asking again, or in the other order, gives the same answer */
void t_flags(void)
{
    PICK(fp, 2);
    platform();
    any_registers();
    regs.flags = any_u32(0, 0x7FFFFFFF) * 2u + (uint32_t)fp;
    { uint32_t size = Platform_GetTargetXmlSize(); const char* p = Platform_GetTargetXml();
      regs.flags = (uint32_t)fp;
      OBLIGE(Platform_GetTargetXmlSize() == size && Platform_GetTargetXml() == p);
      regs.flags = (uint32_t)!fp;
      OBLIGE(Platform_GetTargetXml() != p && Platform_GetTargetXmlSize() != size); }
    MARK(chosen);
}
/* the memory map handed to GDB is the one of the memory map module, with its exact size */
void t_memory_map(void)
{
    uint32_t n = 0, i; const char* p; const char* q;
    PICK(k, 3);
    platform();
    if (k > 0) MemorySim_CreateRegion(mem, 0x20000000u, 16);
    if (k > 1) { MemorySim_CreateRegion(mem, 0, 8); MemorySim_MakeRegionReadOnly(mem, 0); }
    n = Platform_GetDeviceMemoryMapXmlSize();
    p = Platform_GetDeviceMemoryMapXml();
    for (i = 0; p[i]; i++) ;
    OBLIGE(i == n);
    static char copy[600];
    for (i = 0; i <= n; i++) copy[i] = p[i];
    q = MemorySim_GetMemoryMapXML(mem);
    for (i = 0; i <= n; i++) OBLIGE(copy[i] == q[i]);
    MARK(same);
}
