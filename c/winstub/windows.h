#ifndef WINSTUB
#define WINSTUB
typedef long NTSTATUS; typedef unsigned int ULONG; typedef unsigned char UCHAR; typedef UCHAR *PUCHAR; typedef unsigned int DWORD;
#endif
