#include "textflag.h"

// func ID() uintptr: the address of the runtime's record of the calling goroutine
TEXT ·ID(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
