//go:build verifb && !noasm && gc && arm64

// Laid into /repo by a build overlay; see /verif/DESIGN.md.

#include "textflag.h"
#include "funcdata.h"

// func verifPoisoned(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, v uint64)
TEXT ·verifPoisoned(SB), NOSPLIT, $104-104
	NO_LOCAL_POINTERS
	MOVD h_base+0(FP), R0
	MOVD R0, 8(RSP)
	MOVD h_len+8(FP), R0
	MOVD R0, 16(RSP)
	MOVD h_cap+16(FP), R0
	MOVD R0, 24(RSP)
	MOVD p_base+24(FP), R0
	MOVD R0, 32(RSP)
	MOVD p_len+32(FP), R0
	MOVD R0, 40(RSP)
	MOVD p_cap+40(FP), R0
	MOVD R0, 48(RSP)
	MOVD m1_base+48(FP), R0
	MOVD R0, 56(RSP)
	MOVD m1_len+56(FP), R0
	MOVD R0, 64(RSP)
	MOVD m1_cap+64(FP), R0
	MOVD R0, 72(RSP)
	MOVD cs_base+72(FP), R0
	MOVD R0, 80(RSP)
	MOVD cs_len+80(FP), R0
	MOVD R0, 88(RSP)
	MOVD cs_cap+88(FP), R0
	MOVD R0, 96(RSP)
	MOVD v+96(FP), R0
	VDUP R0, V0.D2
	VMOV V0.B16, V1.B16
	VMOV V0.B16, V2.B16
	VMOV V0.B16, V3.B16
	VMOV V0.B16, V4.B16
	VMOV V0.B16, V5.B16
	VMOV V0.B16, V6.B16
	VMOV V0.B16, V7.B16
	VMOV V0.B16, V16.B16
	VMOV V0.B16, V17.B16
	VMOV V0.B16, V18.B16
	VMOV V0.B16, V19.B16
	VMOV V0.B16, V20.B16
	VMOV V0.B16, V21.B16
	VMOV V0.B16, V22.B16
	VMOV V0.B16, V23.B16
	VMOV V0.B16, V24.B16
	VMOV V0.B16, V25.B16
	VMOV V0.B16, V26.B16
	VMOV V0.B16, V27.B16
	VMOV V0.B16, V28.B16
	VMOV V0.B16, V29.B16
	VMOV V0.B16, V30.B16
	VMOV V0.B16, V31.B16
	MOVD R0, R1
	MOVD R0, R2
	MOVD R0, R3
	MOVD R0, R4
	MOVD R0, R5
	MOVD R0, R6
	MOVD R0, R7
	MOVD R0, R8
	MOVD R0, R9
	MOVD R0, R10
	MOVD R0, R11
	MOVD R0, R12
	MOVD R0, R13
	MOVD R0, R14
	MOVD R0, R15
	MOVD R0, R16
	MOVD R0, R17
	MOVD R0, R19
	MOVD R0, R20
	MOVD R0, R21
	MOVD R0, R22
	MOVD R0, R23
	MOVD R0, R24
	MOVD R0, R25
	CALL ·blockARM64(SB)
	RET
