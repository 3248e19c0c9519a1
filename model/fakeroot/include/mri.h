#ifndef _MRI_H_
#define _MRI_H_
void __mriInit(const char* pDebuggerParameters);
void __mriDebugException(void);
#endif
