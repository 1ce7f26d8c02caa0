#include "textflag.h"

// filler: nothing else may lie on the engine's code pages
TEXT ·filler(SB), NOSPLIT, $0-0
	RET
#define B8 LONG $0xCCCCCCCC; LONG $0xCCCCCCCC
#define B64 B8; B8; B8; B8; B8; B8; B8; B8
#define B512 B64; B64; B64; B64; B64; B64; B64; B64
	B512; B512; B512; B512; B512; B512; B512; B512
	B512; B512; B512; B512; B512; B512; B512; B512
	RET
