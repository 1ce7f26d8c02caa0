// Code generated by tools/gen_scale.py. DO NOT EDIT.

package scale

var (
	gInt  [65]int
	gU8   [65]uint8
	gStr  [65]string
	gF64  [65]float64
	gI16  [65]int16
	gAny  [65]interface{}
	gArr  [65][3]byte
	gBool [65]bool
	gF32  [65]float32
	gSl   [65][]int
	gPair [65]pair
	gI32  [65]int32
)

//go:nosplit
func P0_1(p0 int) int {
	gInt[0] = p0
	seen++
	return gInt[0]
}

//go:nosplit
func P0_2(p0 int, p1 int) (int, int) {
	gInt[0] = p0
	gInt[1] = p1
	seen++
	return gInt[0], gInt[1]
}

//go:nosplit
func (r *recvP) P0_2(p0 int, p1 int) (int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	seen++
	return gInt[0], gInt[1]
}

//go:nosplit
func (r recvV) P0_2(p0 int, p1 int) (int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	seen++
	return gInt[0], gInt[1]
}

//go:nosplit
func P0_3(p0 int, p1 int, p2 int) (int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	seen++
	return gInt[0], gInt[1], gInt[2]
}

//go:nosplit
func P0_4(p0 int, p1 int, p2 int, p3 int) (int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3]
}

//go:nosplit
func (r *recvP) P0_4(p0 int, p1 int, p2 int, p3 int) (int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3]
}

//go:nosplit
func (r recvV) P0_4(p0 int, p1 int, p2 int, p3 int) (int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3]
}

//go:nosplit
func P0_5(p0 int, p1 int, p2 int, p3 int, p4 int) (int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4]
}

//go:nosplit
func P0_6(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int) (int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5]
}

//go:nosplit
func (r *recvP) P0_6(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int) (int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5]
}

//go:nosplit
func (r recvV) P0_6(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int) (int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5]
}

//go:nosplit
func P0_7(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int) (int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6]
}

//go:nosplit
func P0_8(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int) (int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7]
}

//go:nosplit
func (r *recvP) P0_8(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int) (int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7]
}

//go:nosplit
func (r recvV) P0_8(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int) (int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7]
}

//go:nosplit
func P0_9(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int) (int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8]
}

//go:nosplit
func P0_10(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9]
}

//go:nosplit
func (r *recvP) P0_10(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9]
}

//go:nosplit
func (r recvV) P0_10(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9]
}

//go:nosplit
func P0_11(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int) (int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10]
}

//go:nosplit
func P0_12(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int) (int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11]
}

//go:nosplit
func (r *recvP) P0_12(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int) (int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11]
}

//go:nosplit
func (r recvV) P0_12(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int) (int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11]
}

//go:nosplit
func P0_13(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int) (int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12]
}

//go:nosplit
func P0_14(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13]
}

//go:nosplit
func (r *recvP) P0_14(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13]
}

//go:nosplit
func (r recvV) P0_14(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13]
}

//go:nosplit
func P0_15(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14]
}

//go:nosplit
func P0_16(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15]
}

//go:nosplit
func (r *recvP) P0_16(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15]
}

//go:nosplit
func (r recvV) P0_16(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15]
}

//go:nosplit
func P0_17(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16]
}

//go:nosplit
func P0_18(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17]
}

//go:nosplit
func (r *recvP) P0_18(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17]
}

//go:nosplit
func (r recvV) P0_18(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17]
}

//go:nosplit
func P0_19(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18]
}

//go:nosplit
func P0_20(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19]
}

//go:nosplit
func (r *recvP) P0_20(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19]
}

//go:nosplit
func (r recvV) P0_20(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19]
}

//go:nosplit
func P0_21(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20]
}

//go:nosplit
func P0_22(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21]
}

//go:nosplit
func (r *recvP) P0_22(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21]
}

//go:nosplit
func (r recvV) P0_22(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21]
}

//go:nosplit
func P0_23(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22]
}

//go:nosplit
func P0_24(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23]
}

//go:nosplit
func (r *recvP) P0_24(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23]
}

//go:nosplit
func (r recvV) P0_24(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23]
}

//go:nosplit
func P0_25(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24]
}

//go:nosplit
func P0_26(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25]
}

//go:nosplit
func (r *recvP) P0_26(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25]
}

//go:nosplit
func (r recvV) P0_26(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25]
}

//go:nosplit
func P0_27(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26]
}

//go:nosplit
func P0_28(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27]
}

//go:nosplit
func (r *recvP) P0_28(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27]
}

//go:nosplit
func (r recvV) P0_28(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27]
}

//go:nosplit
func P0_29(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28]
}

//go:nosplit
func P0_30(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29]
}

//go:nosplit
func (r *recvP) P0_30(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29]
}

//go:nosplit
func (r recvV) P0_30(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29]
}

//go:nosplit
func P0_31(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30]
}

//go:nosplit
func P0_32(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31]
}

//go:nosplit
func (r *recvP) P0_32(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31]
}

//go:nosplit
func (r recvV) P0_32(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31]
}

//go:nosplit
func P0_33(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32]
}

//go:nosplit
func P0_34(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33]
}

//go:nosplit
func (r *recvP) P0_34(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33]
}

//go:nosplit
func (r recvV) P0_34(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33]
}

//go:nosplit
func P0_35(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34]
}

//go:nosplit
func P0_36(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35]
}

//go:nosplit
func (r *recvP) P0_36(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35]
}

//go:nosplit
func (r recvV) P0_36(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35]
}

//go:nosplit
func P0_37(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36]
}

//go:nosplit
func P0_38(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37]
}

//go:nosplit
func (r *recvP) P0_38(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37]
}

//go:nosplit
func (r recvV) P0_38(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37]
}

//go:nosplit
func P0_39(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38]
}

//go:nosplit
func P0_40(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39]
}

//go:nosplit
func (r *recvP) P0_40(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39]
}

//go:nosplit
func (r recvV) P0_40(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39]
}

//go:nosplit
func P0_41(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40]
}

//go:nosplit
func P0_42(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41]
}

//go:nosplit
func (r *recvP) P0_42(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41]
}

//go:nosplit
func (r recvV) P0_42(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41]
}

//go:nosplit
func P0_43(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42]
}

//go:nosplit
func P0_44(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43]
}

//go:nosplit
func (r *recvP) P0_44(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43]
}

//go:nosplit
func (r recvV) P0_44(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43]
}

//go:nosplit
func P0_45(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44]
}

//go:nosplit
func P0_46(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45]
}

//go:nosplit
func (r *recvP) P0_46(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45]
}

//go:nosplit
func (r recvV) P0_46(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45]
}

//go:nosplit
func P0_47(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46]
}

//go:nosplit
func P0_48(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47]
}

//go:nosplit
func (r *recvP) P0_48(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47]
}

//go:nosplit
func (r recvV) P0_48(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47]
}

//go:nosplit
func P0_49(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48]
}

//go:nosplit
func P0_50(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49]
}

//go:nosplit
func (r *recvP) P0_50(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49]
}

//go:nosplit
func (r recvV) P0_50(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49]
}

//go:nosplit
func P0_51(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50]
}

//go:nosplit
func P0_52(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51]
}

//go:nosplit
func (r *recvP) P0_52(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51]
}

//go:nosplit
func (r recvV) P0_52(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51]
}

//go:nosplit
func P0_53(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52]
}

//go:nosplit
func P0_54(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53]
}

//go:nosplit
func (r *recvP) P0_54(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53]
}

//go:nosplit
func (r recvV) P0_54(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53]
}

//go:nosplit
func P0_55(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54]
}

//go:nosplit
func P0_56(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r *recvP) P0_56(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r recvV) P0_56(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_57(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_58(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r *recvP) P0_58(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r recvV) P0_58(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_59(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_60(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r *recvP) P0_60(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r recvV) P0_60(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_61(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_62(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r *recvP) P0_62(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r recvV) P0_62(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_63(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int, p62 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	gInt[62] = p62
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P0_64(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int, p62 int, p63 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	gInt[62] = p62
	gInt[63] = p63
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r *recvP) P0_64(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int, p62 int, p63 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	gInt[62] = p62
	gInt[63] = p63
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func (r recvV) P0_64(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int, p13 int, p14 int, p15 int, p16 int, p17 int, p18 int, p19 int, p20 int, p21 int, p22 int, p23 int, p24 int, p25 int, p26 int, p27 int, p28 int, p29 int, p30 int, p31 int, p32 int, p33 int, p34 int, p35 int, p36 int, p37 int, p38 int, p39 int, p40 int, p41 int, p42 int, p43 int, p44 int, p45 int, p46 int, p47 int, p48 int, p49 int, p50 int, p51 int, p52 int, p53 int, p54 int, p55 int, p56 int, p57 int, p58 int, p59 int, p60 int, p61 int, p62 int, p63 int) (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) {
	gInt[0] = p0
	gRecv = r.k
	gInt[1] = p1
	gInt[2] = p2
	gInt[3] = p3
	gInt[4] = p4
	gInt[5] = p5
	gInt[6] = p6
	gInt[7] = p7
	gInt[8] = p8
	gInt[9] = p9
	gInt[10] = p10
	gInt[11] = p11
	gInt[12] = p12
	gInt[13] = p13
	gInt[14] = p14
	gInt[15] = p15
	gInt[16] = p16
	gInt[17] = p17
	gInt[18] = p18
	gInt[19] = p19
	gInt[20] = p20
	gInt[21] = p21
	gInt[22] = p22
	gInt[23] = p23
	gInt[24] = p24
	gInt[25] = p25
	gInt[26] = p26
	gInt[27] = p27
	gInt[28] = p28
	gInt[29] = p29
	gInt[30] = p30
	gInt[31] = p31
	gInt[32] = p32
	gInt[33] = p33
	gInt[34] = p34
	gInt[35] = p35
	gInt[36] = p36
	gInt[37] = p37
	gInt[38] = p38
	gInt[39] = p39
	gInt[40] = p40
	gInt[41] = p41
	gInt[42] = p42
	gInt[43] = p43
	gInt[44] = p44
	gInt[45] = p45
	gInt[46] = p46
	gInt[47] = p47
	gInt[48] = p48
	gInt[49] = p49
	gInt[50] = p50
	gInt[51] = p51
	gInt[52] = p52
	gInt[53] = p53
	gInt[54] = p54
	gInt[55] = p55
	gInt[56] = p56
	gInt[57] = p57
	gInt[58] = p58
	gInt[59] = p59
	gInt[60] = p60
	gInt[61] = p61
	gInt[62] = p62
	gInt[63] = p63
	seen++
	return gInt[0], gInt[1], gInt[2], gInt[3], gInt[4], gInt[5], gInt[6], gInt[7], gInt[8], gInt[9], gInt[10], gInt[11], gInt[12], gInt[13], gInt[14], gInt[15], gInt[16], gInt[17], gInt[18], gInt[19], gInt[20], gInt[21], gInt[22], gInt[23], gInt[24], gInt[25], gInt[26], gInt[27], gInt[28], gInt[29], gInt[30], gInt[31], gInt[32], gInt[33], gInt[34], gInt[35], gInt[36], gInt[37], gInt[38], gInt[39], gInt[40], gInt[41], gInt[42], gInt[43], gInt[44], gInt[45], gInt[46], gInt[47], gInt[48], gInt[49], gInt[50], gInt[51], gInt[52], gInt[53], gInt[54], gInt[55]
}

//go:nosplit
func P1_1(p0 uint8) uint8 {
	gU8[0] = p0
	seen++
	return gU8[0]
}

//go:nosplit
func (r *recvP) P1_1(p0 uint8) uint8 {
	gU8[0] = p0
	gRecv = r.k
	seen++
	return gU8[0]
}

//go:nosplit
func (r recvV) P1_1(p0 uint8) uint8 {
	gU8[0] = p0
	gRecv = r.k
	seen++
	return gU8[0]
}

//go:nosplit
func P1_2(p0 uint8, p1 string) (uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	seen++
	return gU8[0], gStr[1]
}

//go:nosplit
func (r *recvP) P1_2(p0 uint8, p1 string) (uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	seen++
	return gU8[0], gStr[1]
}

//go:nosplit
func (r recvV) P1_2(p0 uint8, p1 string) (uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	seen++
	return gU8[0], gStr[1]
}

//go:nosplit
func P1_3(p0 uint8, p1 string, p2 int16) (uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	seen++
	return gU8[0], gStr[1], gI16[2]
}

//go:nosplit
func (r *recvP) P1_3(p0 uint8, p1 string, p2 int16) (uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	seen++
	return gU8[0], gStr[1], gI16[2]
}

//go:nosplit
func (r recvV) P1_3(p0 uint8, p1 string, p2 int16) (uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	seen++
	return gU8[0], gStr[1], gI16[2]
}

//go:nosplit
func P1_4(p0 uint8, p1 string, p2 int16, p3 bool) (uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3]
}

//go:nosplit
func (r *recvP) P1_4(p0 uint8, p1 string, p2 int16, p3 bool) (uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3]
}

//go:nosplit
func (r recvV) P1_4(p0 uint8, p1 string, p2 int16, p3 bool) (uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3]
}

//go:nosplit
func P1_5(p0 uint8, p1 string, p2 int16, p3 bool, p4 string) (uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4]
}

//go:nosplit
func (r *recvP) P1_5(p0 uint8, p1 string, p2 int16, p3 bool, p4 string) (uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4]
}

//go:nosplit
func (r recvV) P1_5(p0 uint8, p1 string, p2 int16, p3 bool, p4 string) (uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4]
}

//go:nosplit
func P1_6(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool) (uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5]
}

//go:nosplit
func (r *recvP) P1_6(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool) (uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5]
}

//go:nosplit
func (r recvV) P1_6(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool) (uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5]
}

//go:nosplit
func P1_7(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16) (uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6]
}

//go:nosplit
func (r *recvP) P1_7(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16) (uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6]
}

//go:nosplit
func (r recvV) P1_7(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16) (uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6]
}

//go:nosplit
func P1_8(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string) (uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7]
}

//go:nosplit
func (r *recvP) P1_8(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string) (uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7]
}

//go:nosplit
func (r recvV) P1_8(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string) (uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7]
}

//go:nosplit
func P1_9(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8]
}

//go:nosplit
func (r *recvP) P1_9(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8]
}

//go:nosplit
func (r recvV) P1_9(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8]
}

//go:nosplit
func P1_10(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9]
}

//go:nosplit
func (r *recvP) P1_10(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9]
}

//go:nosplit
func (r recvV) P1_10(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9]
}

//go:nosplit
func P1_11(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10]
}

//go:nosplit
func (r *recvP) P1_11(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10]
}

//go:nosplit
func (r recvV) P1_11(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10]
}

//go:nosplit
func P1_12(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11]
}

//go:nosplit
func (r *recvP) P1_12(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11]
}

//go:nosplit
func (r recvV) P1_12(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11]
}

//go:nosplit
func P1_13(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12]
}

//go:nosplit
func (r *recvP) P1_13(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12]
}

//go:nosplit
func (r recvV) P1_13(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12]
}

//go:nosplit
func P1_14(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13]
}

//go:nosplit
func (r *recvP) P1_14(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13]
}

//go:nosplit
func (r recvV) P1_14(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13]
}

//go:nosplit
func P1_15(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14]
}

//go:nosplit
func (r *recvP) P1_15(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14]
}

//go:nosplit
func (r recvV) P1_15(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14]
}

//go:nosplit
func P1_16(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15]
}

//go:nosplit
func (r *recvP) P1_16(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15]
}

//go:nosplit
func (r recvV) P1_16(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15]
}

//go:nosplit
func P1_17(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16]
}

//go:nosplit
func (r *recvP) P1_17(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16]
}

//go:nosplit
func (r recvV) P1_17(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16]
}

//go:nosplit
func P1_18(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17]
}

//go:nosplit
func (r *recvP) P1_18(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17]
}

//go:nosplit
func (r recvV) P1_18(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17]
}

//go:nosplit
func P1_19(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18]
}

//go:nosplit
func (r *recvP) P1_19(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18]
}

//go:nosplit
func (r recvV) P1_19(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18]
}

//go:nosplit
func P1_20(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19]
}

//go:nosplit
func (r *recvP) P1_20(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19]
}

//go:nosplit
func (r recvV) P1_20(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19]
}

//go:nosplit
func P1_21(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20]
}

//go:nosplit
func (r *recvP) P1_21(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20]
}

//go:nosplit
func (r recvV) P1_21(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20]
}

//go:nosplit
func P1_22(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21]
}

//go:nosplit
func (r *recvP) P1_22(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21]
}

//go:nosplit
func (r recvV) P1_22(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21]
}

//go:nosplit
func P1_23(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22]
}

//go:nosplit
func (r *recvP) P1_23(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22]
}

//go:nosplit
func (r recvV) P1_23(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22]
}

//go:nosplit
func P1_24(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23]
}

//go:nosplit
func (r *recvP) P1_24(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23]
}

//go:nosplit
func (r recvV) P1_24(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23]
}

//go:nosplit
func P1_25(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24]
}

//go:nosplit
func (r *recvP) P1_25(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24]
}

//go:nosplit
func (r recvV) P1_25(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24]
}

//go:nosplit
func P1_26(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25]
}

//go:nosplit
func (r *recvP) P1_26(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25]
}

//go:nosplit
func (r recvV) P1_26(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25]
}

//go:nosplit
func P1_27(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26]
}

//go:nosplit
func (r *recvP) P1_27(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26]
}

//go:nosplit
func (r recvV) P1_27(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26]
}

//go:nosplit
func P1_28(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27]
}

//go:nosplit
func (r *recvP) P1_28(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27]
}

//go:nosplit
func (r recvV) P1_28(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27]
}

//go:nosplit
func P1_29(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28]
}

//go:nosplit
func (r *recvP) P1_29(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28]
}

//go:nosplit
func (r recvV) P1_29(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28]
}

//go:nosplit
func P1_30(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29]
}

//go:nosplit
func (r *recvP) P1_30(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29]
}

//go:nosplit
func (r recvV) P1_30(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29]
}

//go:nosplit
func P1_31(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30]
}

//go:nosplit
func (r *recvP) P1_31(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30]
}

//go:nosplit
func (r recvV) P1_31(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30]
}

//go:nosplit
func P1_32(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31]
}

//go:nosplit
func (r *recvP) P1_32(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31]
}

//go:nosplit
func (r recvV) P1_32(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31]
}

//go:nosplit
func P1_33(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32]
}

//go:nosplit
func (r *recvP) P1_33(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32]
}

//go:nosplit
func (r recvV) P1_33(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32]
}

//go:nosplit
func P1_34(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33]
}

//go:nosplit
func (r *recvP) P1_34(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33]
}

//go:nosplit
func (r recvV) P1_34(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33]
}

//go:nosplit
func P1_35(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34]
}

//go:nosplit
func (r *recvP) P1_35(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34]
}

//go:nosplit
func (r recvV) P1_35(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34]
}

//go:nosplit
func P1_36(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35]
}

//go:nosplit
func (r *recvP) P1_36(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35]
}

//go:nosplit
func (r recvV) P1_36(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35]
}

//go:nosplit
func P1_37(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36]
}

//go:nosplit
func (r *recvP) P1_37(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36]
}

//go:nosplit
func (r recvV) P1_37(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36]
}

//go:nosplit
func P1_38(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37]
}

//go:nosplit
func (r *recvP) P1_38(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37]
}

//go:nosplit
func (r recvV) P1_38(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37]
}

//go:nosplit
func P1_39(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38]
}

//go:nosplit
func (r *recvP) P1_39(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38]
}

//go:nosplit
func (r recvV) P1_39(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38]
}

//go:nosplit
func P1_40(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39]
}

//go:nosplit
func (r *recvP) P1_40(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39]
}

//go:nosplit
func (r recvV) P1_40(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39]
}

//go:nosplit
func P1_41(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40]
}

//go:nosplit
func (r *recvP) P1_41(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40]
}

//go:nosplit
func (r recvV) P1_41(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40]
}

//go:nosplit
func P1_42(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41]
}

//go:nosplit
func (r *recvP) P1_42(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41]
}

//go:nosplit
func (r recvV) P1_42(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41]
}

//go:nosplit
func P1_43(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42]
}

//go:nosplit
func (r *recvP) P1_43(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42]
}

//go:nosplit
func (r recvV) P1_43(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42]
}

//go:nosplit
func P1_44(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43]
}

//go:nosplit
func (r *recvP) P1_44(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43]
}

//go:nosplit
func (r recvV) P1_44(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43]
}

//go:nosplit
func P1_45(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44]
}

//go:nosplit
func (r *recvP) P1_45(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44]
}

//go:nosplit
func (r recvV) P1_45(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44]
}

//go:nosplit
func P1_46(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45]
}

//go:nosplit
func (r *recvP) P1_46(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45]
}

//go:nosplit
func (r recvV) P1_46(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45]
}

//go:nosplit
func P1_47(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46]
}

//go:nosplit
func (r *recvP) P1_47(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46]
}

//go:nosplit
func (r recvV) P1_47(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46]
}

//go:nosplit
func P1_48(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47]
}

//go:nosplit
func (r *recvP) P1_48(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47]
}

//go:nosplit
func (r recvV) P1_48(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47]
}

//go:nosplit
func P1_49(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48]
}

//go:nosplit
func (r *recvP) P1_49(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48]
}

//go:nosplit
func (r recvV) P1_49(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48]
}

//go:nosplit
func P1_50(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49]
}

//go:nosplit
func (r *recvP) P1_50(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49]
}

//go:nosplit
func (r recvV) P1_50(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49]
}

//go:nosplit
func P1_51(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50]
}

//go:nosplit
func (r *recvP) P1_51(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50]
}

//go:nosplit
func (r recvV) P1_51(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50]
}

//go:nosplit
func P1_52(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51]
}

//go:nosplit
func (r *recvP) P1_52(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51]
}

//go:nosplit
func (r recvV) P1_52(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51]
}

//go:nosplit
func P1_53(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52]
}

//go:nosplit
func (r *recvP) P1_53(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52]
}

//go:nosplit
func (r recvV) P1_53(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52]
}

//go:nosplit
func P1_54(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53]
}

//go:nosplit
func (r *recvP) P1_54(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53]
}

//go:nosplit
func (r recvV) P1_54(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53]
}

//go:nosplit
func P1_55(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54]
}

//go:nosplit
func (r *recvP) P1_55(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54]
}

//go:nosplit
func (r recvV) P1_55(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54]
}

//go:nosplit
func P1_56(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_56(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_56(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_57(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_57(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_57(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_58(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_58(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_58(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_59(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_59(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_59(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_60(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_60(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_60(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_61(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_61(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_61(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_62(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_62(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_62(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_63(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_63(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_63(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P1_64(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8, p63 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	gU8[63] = p63
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r *recvP) P1_64(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8, p63 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	gU8[63] = p63
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func (r recvV) P1_64(p0 uint8, p1 string, p2 int16, p3 bool, p4 string, p5 bool, p6 int16, p7 string, p8 uint8, p9 uint8, p10 string, p11 int16, p12 bool, p13 string, p14 bool, p15 int16, p16 string, p17 uint8, p18 uint8, p19 string, p20 int16, p21 bool, p22 string, p23 bool, p24 int16, p25 string, p26 uint8, p27 uint8, p28 string, p29 int16, p30 bool, p31 string, p32 bool, p33 int16, p34 string, p35 uint8, p36 uint8, p37 string, p38 int16, p39 bool, p40 string, p41 bool, p42 int16, p43 string, p44 uint8, p45 uint8, p46 string, p47 int16, p48 bool, p49 string, p50 bool, p51 int16, p52 string, p53 uint8, p54 uint8, p55 string, p56 int16, p57 bool, p58 string, p59 bool, p60 int16, p61 string, p62 uint8, p63 uint8) (uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string, int16, bool, string, bool, int16, string, uint8, uint8, string) {
	gU8[0] = p0
	gRecv = r.k
	gStr[1] = p1
	gI16[2] = p2
	gBool[3] = p3
	gStr[4] = p4
	gBool[5] = p5
	gI16[6] = p6
	gStr[7] = p7
	gU8[8] = p8
	gU8[9] = p9
	gStr[10] = p10
	gI16[11] = p11
	gBool[12] = p12
	gStr[13] = p13
	gBool[14] = p14
	gI16[15] = p15
	gStr[16] = p16
	gU8[17] = p17
	gU8[18] = p18
	gStr[19] = p19
	gI16[20] = p20
	gBool[21] = p21
	gStr[22] = p22
	gBool[23] = p23
	gI16[24] = p24
	gStr[25] = p25
	gU8[26] = p26
	gU8[27] = p27
	gStr[28] = p28
	gI16[29] = p29
	gBool[30] = p30
	gStr[31] = p31
	gBool[32] = p32
	gI16[33] = p33
	gStr[34] = p34
	gU8[35] = p35
	gU8[36] = p36
	gStr[37] = p37
	gI16[38] = p38
	gBool[39] = p39
	gStr[40] = p40
	gBool[41] = p41
	gI16[42] = p42
	gStr[43] = p43
	gU8[44] = p44
	gU8[45] = p45
	gStr[46] = p46
	gI16[47] = p47
	gBool[48] = p48
	gStr[49] = p49
	gBool[50] = p50
	gI16[51] = p51
	gStr[52] = p52
	gU8[53] = p53
	gU8[54] = p54
	gStr[55] = p55
	gI16[56] = p56
	gBool[57] = p57
	gStr[58] = p58
	gBool[59] = p59
	gI16[60] = p60
	gStr[61] = p61
	gU8[62] = p62
	gU8[63] = p63
	seen++
	return gU8[0], gStr[1], gI16[2], gBool[3], gStr[4], gBool[5], gI16[6], gStr[7], gU8[8], gU8[9], gStr[10], gI16[11], gBool[12], gStr[13], gBool[14], gI16[15], gStr[16], gU8[17], gU8[18], gStr[19], gI16[20], gBool[21], gStr[22], gBool[23], gI16[24], gStr[25], gU8[26], gU8[27], gStr[28], gI16[29], gBool[30], gStr[31], gBool[32], gI16[33], gStr[34], gU8[35], gU8[36], gStr[37], gI16[38], gBool[39], gStr[40], gBool[41], gI16[42], gStr[43], gU8[44], gU8[45], gStr[46], gI16[47], gBool[48], gStr[49], gBool[50], gI16[51], gStr[52], gU8[53], gU8[54], gStr[55]
}

//go:nosplit
func P2_1(p0 pair) pair {
	gPair[0] = p0
	seen++
	return gPair[0]
}

//go:nosplit
func (r *recvP) P2_1(p0 pair) pair {
	gPair[0] = p0
	gRecv = r.k
	seen++
	return gPair[0]
}

//go:nosplit
func (r recvV) P2_1(p0 pair) pair {
	gPair[0] = p0
	gRecv = r.k
	seen++
	return gPair[0]
}

//go:nosplit
func P2_2(p0 pair, p1 int32) (pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	seen++
	return gPair[0], gI32[1]
}

//go:nosplit
func (r *recvP) P2_2(p0 pair, p1 int32) (pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	seen++
	return gPair[0], gI32[1]
}

//go:nosplit
func (r recvV) P2_2(p0 pair, p1 int32) (pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	seen++
	return gPair[0], gI32[1]
}

//go:nosplit
func P2_3(p0 pair, p1 int32, p2 int32) (pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	seen++
	return gPair[0], gI32[1], gI32[2]
}

//go:nosplit
func (r *recvP) P2_3(p0 pair, p1 int32, p2 int32) (pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	seen++
	return gPair[0], gI32[1], gI32[2]
}

//go:nosplit
func (r recvV) P2_3(p0 pair, p1 int32, p2 int32) (pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	seen++
	return gPair[0], gI32[1], gI32[2]
}

//go:nosplit
func P2_4(p0 pair, p1 int32, p2 int32, p3 pair) (pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3]
}

//go:nosplit
func (r *recvP) P2_4(p0 pair, p1 int32, p2 int32, p3 pair) (pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3]
}

//go:nosplit
func (r recvV) P2_4(p0 pair, p1 int32, p2 int32, p3 pair) (pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3]
}

//go:nosplit
func P2_5(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair) (pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4]
}

//go:nosplit
func (r *recvP) P2_5(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair) (pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4]
}

//go:nosplit
func (r recvV) P2_5(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair) (pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4]
}

//go:nosplit
func P2_6(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32) (pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5]
}

//go:nosplit
func (r *recvP) P2_6(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32) (pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5]
}

//go:nosplit
func (r recvV) P2_6(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32) (pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5]
}

//go:nosplit
func P2_7(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32) (pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6]
}

//go:nosplit
func (r *recvP) P2_7(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32) (pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6]
}

//go:nosplit
func (r recvV) P2_7(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32) (pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6]
}

//go:nosplit
func P2_8(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair) (pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7]
}

//go:nosplit
func (r *recvP) P2_8(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair) (pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7]
}

//go:nosplit
func (r recvV) P2_8(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair) (pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7]
}

//go:nosplit
func P2_9(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8]
}

//go:nosplit
func (r *recvP) P2_9(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8]
}

//go:nosplit
func (r recvV) P2_9(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8]
}

//go:nosplit
func P2_10(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9]
}

//go:nosplit
func (r *recvP) P2_10(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9]
}

//go:nosplit
func (r recvV) P2_10(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9]
}

//go:nosplit
func P2_11(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10]
}

//go:nosplit
func (r *recvP) P2_11(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10]
}

//go:nosplit
func (r recvV) P2_11(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10]
}

//go:nosplit
func P2_12(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11]
}

//go:nosplit
func (r *recvP) P2_12(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11]
}

//go:nosplit
func (r recvV) P2_12(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11]
}

//go:nosplit
func P2_13(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12]
}

//go:nosplit
func (r *recvP) P2_13(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12]
}

//go:nosplit
func (r recvV) P2_13(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12]
}

//go:nosplit
func P2_14(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13]
}

//go:nosplit
func (r *recvP) P2_14(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13]
}

//go:nosplit
func (r recvV) P2_14(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13]
}

//go:nosplit
func P2_15(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14]
}

//go:nosplit
func (r *recvP) P2_15(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14]
}

//go:nosplit
func (r recvV) P2_15(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14]
}

//go:nosplit
func P2_16(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15]
}

//go:nosplit
func (r *recvP) P2_16(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15]
}

//go:nosplit
func (r recvV) P2_16(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15]
}

//go:nosplit
func P2_17(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16]
}

//go:nosplit
func (r *recvP) P2_17(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16]
}

//go:nosplit
func (r recvV) P2_17(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16]
}

//go:nosplit
func P2_18(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17]
}

//go:nosplit
func (r *recvP) P2_18(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17]
}

//go:nosplit
func (r recvV) P2_18(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17]
}

//go:nosplit
func P2_19(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18]
}

//go:nosplit
func (r *recvP) P2_19(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18]
}

//go:nosplit
func (r recvV) P2_19(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18]
}

//go:nosplit
func P2_20(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19]
}

//go:nosplit
func (r *recvP) P2_20(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19]
}

//go:nosplit
func (r recvV) P2_20(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19]
}

//go:nosplit
func P2_21(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20]
}

//go:nosplit
func (r *recvP) P2_21(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20]
}

//go:nosplit
func (r recvV) P2_21(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20]
}

//go:nosplit
func P2_22(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21]
}

//go:nosplit
func (r *recvP) P2_22(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21]
}

//go:nosplit
func (r recvV) P2_22(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21]
}

//go:nosplit
func P2_23(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22]
}

//go:nosplit
func (r *recvP) P2_23(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22]
}

//go:nosplit
func (r recvV) P2_23(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22]
}

//go:nosplit
func P2_24(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23]
}

//go:nosplit
func (r *recvP) P2_24(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23]
}

//go:nosplit
func (r recvV) P2_24(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23]
}

//go:nosplit
func P2_25(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24]
}

//go:nosplit
func (r *recvP) P2_25(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24]
}

//go:nosplit
func (r recvV) P2_25(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24]
}

//go:nosplit
func P2_26(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25]
}

//go:nosplit
func (r *recvP) P2_26(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25]
}

//go:nosplit
func (r recvV) P2_26(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25]
}

//go:nosplit
func P2_27(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26]
}

//go:nosplit
func (r *recvP) P2_27(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26]
}

//go:nosplit
func (r recvV) P2_27(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26]
}

//go:nosplit
func P2_28(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27]
}

//go:nosplit
func (r *recvP) P2_28(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27]
}

//go:nosplit
func (r recvV) P2_28(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27]
}

//go:nosplit
func P2_29(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28]
}

//go:nosplit
func (r *recvP) P2_29(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28]
}

//go:nosplit
func (r recvV) P2_29(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28]
}

//go:nosplit
func P2_30(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29]
}

//go:nosplit
func (r *recvP) P2_30(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29]
}

//go:nosplit
func (r recvV) P2_30(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29]
}

//go:nosplit
func P2_31(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30]
}

//go:nosplit
func (r *recvP) P2_31(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30]
}

//go:nosplit
func (r recvV) P2_31(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30]
}

//go:nosplit
func P2_32(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31]
}

//go:nosplit
func (r *recvP) P2_32(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31]
}

//go:nosplit
func (r recvV) P2_32(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31]
}

//go:nosplit
func P2_33(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32]
}

//go:nosplit
func (r *recvP) P2_33(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32]
}

//go:nosplit
func (r recvV) P2_33(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32]
}

//go:nosplit
func P2_34(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33]
}

//go:nosplit
func (r *recvP) P2_34(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33]
}

//go:nosplit
func (r recvV) P2_34(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33]
}

//go:nosplit
func P2_35(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34]
}

//go:nosplit
func (r *recvP) P2_35(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34]
}

//go:nosplit
func (r recvV) P2_35(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34]
}

//go:nosplit
func P2_36(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35]
}

//go:nosplit
func (r *recvP) P2_36(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35]
}

//go:nosplit
func (r recvV) P2_36(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35]
}

//go:nosplit
func P2_37(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36]
}

//go:nosplit
func (r *recvP) P2_37(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36]
}

//go:nosplit
func (r recvV) P2_37(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36]
}

//go:nosplit
func P2_38(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37]
}

//go:nosplit
func (r *recvP) P2_38(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37]
}

//go:nosplit
func (r recvV) P2_38(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37]
}

//go:nosplit
func P2_39(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38]
}

//go:nosplit
func (r *recvP) P2_39(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38]
}

//go:nosplit
func (r recvV) P2_39(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38]
}

//go:nosplit
func P2_40(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39]
}

//go:nosplit
func (r *recvP) P2_40(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39]
}

//go:nosplit
func (r recvV) P2_40(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39]
}

//go:nosplit
func P2_41(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40]
}

//go:nosplit
func (r *recvP) P2_41(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40]
}

//go:nosplit
func (r recvV) P2_41(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40]
}

//go:nosplit
func P2_42(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41]
}

//go:nosplit
func (r *recvP) P2_42(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41]
}

//go:nosplit
func (r recvV) P2_42(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41]
}

//go:nosplit
func P2_43(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42]
}

//go:nosplit
func (r *recvP) P2_43(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42]
}

//go:nosplit
func (r recvV) P2_43(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42]
}

//go:nosplit
func P2_44(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43]
}

//go:nosplit
func (r *recvP) P2_44(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43]
}

//go:nosplit
func (r recvV) P2_44(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43]
}

//go:nosplit
func P2_45(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44]
}

//go:nosplit
func (r *recvP) P2_45(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44]
}

//go:nosplit
func (r recvV) P2_45(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44]
}

//go:nosplit
func P2_46(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45]
}

//go:nosplit
func (r *recvP) P2_46(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45]
}

//go:nosplit
func (r recvV) P2_46(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45]
}

//go:nosplit
func P2_47(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46]
}

//go:nosplit
func (r *recvP) P2_47(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46]
}

//go:nosplit
func (r recvV) P2_47(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46]
}

//go:nosplit
func P2_48(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47]
}

//go:nosplit
func (r *recvP) P2_48(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47]
}

//go:nosplit
func (r recvV) P2_48(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47]
}

//go:nosplit
func P2_49(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48]
}

//go:nosplit
func (r *recvP) P2_49(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48]
}

//go:nosplit
func (r recvV) P2_49(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48]
}

//go:nosplit
func P2_50(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49]
}

//go:nosplit
func (r *recvP) P2_50(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49]
}

//go:nosplit
func (r recvV) P2_50(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49]
}

//go:nosplit
func P2_51(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50]
}

//go:nosplit
func (r *recvP) P2_51(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50]
}

//go:nosplit
func (r recvV) P2_51(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50]
}

//go:nosplit
func P2_52(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51]
}

//go:nosplit
func (r *recvP) P2_52(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51]
}

//go:nosplit
func (r recvV) P2_52(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51]
}

//go:nosplit
func P2_53(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52]
}

//go:nosplit
func (r *recvP) P2_53(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52]
}

//go:nosplit
func (r recvV) P2_53(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52]
}

//go:nosplit
func P2_54(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53]
}

//go:nosplit
func (r *recvP) P2_54(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53]
}

//go:nosplit
func (r recvV) P2_54(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53]
}

//go:nosplit
func P2_55(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54]
}

//go:nosplit
func (r *recvP) P2_55(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54]
}

//go:nosplit
func (r recvV) P2_55(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54]
}

//go:nosplit
func P2_56(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_56(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_56(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_57(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_57(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_57(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_58(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_58(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_58(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_59(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_59(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_59(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_60(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_60(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_60(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_61(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_61(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_61(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_62(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_62(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_62(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_63(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_63(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_63(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func P2_64(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32, p63 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	gPair[63] = p63
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r *recvP) P2_64(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32, p63 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	gPair[63] = p63
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

//go:nosplit
func (r recvV) P2_64(p0 pair, p1 int32, p2 int32, p3 pair, p4 pair, p5 int32, p6 int32, p7 pair, p8 pair, p9 int32, p10 int32, p11 pair, p12 pair, p13 int32, p14 int32, p15 pair, p16 pair, p17 int32, p18 int32, p19 pair, p20 pair, p21 int32, p22 int32, p23 pair, p24 pair, p25 int32, p26 int32, p27 pair, p28 pair, p29 int32, p30 int32, p31 pair, p32 pair, p33 int32, p34 int32, p35 pair, p36 pair, p37 int32, p38 int32, p39 pair, p40 pair, p41 int32, p42 int32, p43 pair, p44 pair, p45 int32, p46 int32, p47 pair, p48 pair, p49 int32, p50 int32, p51 pair, p52 pair, p53 int32, p54 int32, p55 pair, p56 pair, p57 int32, p58 int32, p59 pair, p60 pair, p61 int32, p62 int32, p63 pair) (pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair, pair, int32, int32, pair) {
	gPair[0] = p0
	gRecv = r.k
	gI32[1] = p1
	gI32[2] = p2
	gPair[3] = p3
	gPair[4] = p4
	gI32[5] = p5
	gI32[6] = p6
	gPair[7] = p7
	gPair[8] = p8
	gI32[9] = p9
	gI32[10] = p10
	gPair[11] = p11
	gPair[12] = p12
	gI32[13] = p13
	gI32[14] = p14
	gPair[15] = p15
	gPair[16] = p16
	gI32[17] = p17
	gI32[18] = p18
	gPair[19] = p19
	gPair[20] = p20
	gI32[21] = p21
	gI32[22] = p22
	gPair[23] = p23
	gPair[24] = p24
	gI32[25] = p25
	gI32[26] = p26
	gPair[27] = p27
	gPair[28] = p28
	gI32[29] = p29
	gI32[30] = p30
	gPair[31] = p31
	gPair[32] = p32
	gI32[33] = p33
	gI32[34] = p34
	gPair[35] = p35
	gPair[36] = p36
	gI32[37] = p37
	gI32[38] = p38
	gPair[39] = p39
	gPair[40] = p40
	gI32[41] = p41
	gI32[42] = p42
	gPair[43] = p43
	gPair[44] = p44
	gI32[45] = p45
	gI32[46] = p46
	gPair[47] = p47
	gPair[48] = p48
	gI32[49] = p49
	gI32[50] = p50
	gPair[51] = p51
	gPair[52] = p52
	gI32[53] = p53
	gI32[54] = p54
	gPair[55] = p55
	gPair[56] = p56
	gI32[57] = p57
	gI32[58] = p58
	gPair[59] = p59
	gPair[60] = p60
	gI32[61] = p61
	gI32[62] = p62
	gPair[63] = p63
	seen++
	return gPair[0], gI32[1], gI32[2], gPair[3], gPair[4], gI32[5], gI32[6], gPair[7], gPair[8], gI32[9], gI32[10], gPair[11], gPair[12], gI32[13], gI32[14], gPair[15], gPair[16], gI32[17], gI32[18], gPair[19], gPair[20], gI32[21], gI32[22], gPair[23], gPair[24], gI32[25], gI32[26], gPair[27], gPair[28], gI32[29], gI32[30], gPair[31], gPair[32], gI32[33], gI32[34], gPair[35], gPair[36], gI32[37], gI32[38], gPair[39], gPair[40], gI32[41], gI32[42], gPair[43], gPair[44], gI32[45], gI32[46], gPair[47], gPair[48], gI32[49], gI32[50], gPair[51], gPair[52], gI32[53], gI32[54], gPair[55]
}

var many = []struct {
	f    interface{}
	recv bool
}{
	{P0_1, false},
	{P0_2, false},
	{(*recvP).P0_2, true},
	{recvV.P0_2, true},
	{P0_3, false},
	{P0_4, false},
	{(*recvP).P0_4, true},
	{recvV.P0_4, true},
	{P0_5, false},
	{P0_6, false},
	{(*recvP).P0_6, true},
	{recvV.P0_6, true},
	{P0_7, false},
	{P0_8, false},
	{(*recvP).P0_8, true},
	{recvV.P0_8, true},
	{P0_9, false},
	{P0_10, false},
	{(*recvP).P0_10, true},
	{recvV.P0_10, true},
	{P0_11, false},
	{P0_12, false},
	{(*recvP).P0_12, true},
	{recvV.P0_12, true},
	{P0_13, false},
	{P0_14, false},
	{(*recvP).P0_14, true},
	{recvV.P0_14, true},
	{P0_15, false},
	{P0_16, false},
	{(*recvP).P0_16, true},
	{recvV.P0_16, true},
	{P0_17, false},
	{P0_18, false},
	{(*recvP).P0_18, true},
	{recvV.P0_18, true},
	{P0_19, false},
	{P0_20, false},
	{(*recvP).P0_20, true},
	{recvV.P0_20, true},
	{P0_21, false},
	{P0_22, false},
	{(*recvP).P0_22, true},
	{recvV.P0_22, true},
	{P0_23, false},
	{P0_24, false},
	{(*recvP).P0_24, true},
	{recvV.P0_24, true},
	{P0_25, false},
	{P0_26, false},
	{(*recvP).P0_26, true},
	{recvV.P0_26, true},
	{P0_27, false},
	{P0_28, false},
	{(*recvP).P0_28, true},
	{recvV.P0_28, true},
	{P0_29, false},
	{P0_30, false},
	{(*recvP).P0_30, true},
	{recvV.P0_30, true},
	{P0_31, false},
	{P0_32, false},
	{(*recvP).P0_32, true},
	{recvV.P0_32, true},
	{P0_33, false},
	{P0_34, false},
	{(*recvP).P0_34, true},
	{recvV.P0_34, true},
	{P0_35, false},
	{P0_36, false},
	{(*recvP).P0_36, true},
	{recvV.P0_36, true},
	{P0_37, false},
	{P0_38, false},
	{(*recvP).P0_38, true},
	{recvV.P0_38, true},
	{P0_39, false},
	{P0_40, false},
	{(*recvP).P0_40, true},
	{recvV.P0_40, true},
	{P0_41, false},
	{P0_42, false},
	{(*recvP).P0_42, true},
	{recvV.P0_42, true},
	{P0_43, false},
	{P0_44, false},
	{(*recvP).P0_44, true},
	{recvV.P0_44, true},
	{P0_45, false},
	{P0_46, false},
	{(*recvP).P0_46, true},
	{recvV.P0_46, true},
	{P0_47, false},
	{P0_48, false},
	{(*recvP).P0_48, true},
	{recvV.P0_48, true},
	{P0_49, false},
	{P0_50, false},
	{(*recvP).P0_50, true},
	{recvV.P0_50, true},
	{P0_51, false},
	{P0_52, false},
	{(*recvP).P0_52, true},
	{recvV.P0_52, true},
	{P0_53, false},
	{P0_54, false},
	{(*recvP).P0_54, true},
	{recvV.P0_54, true},
	{P0_55, false},
	{P0_56, false},
	{(*recvP).P0_56, true},
	{recvV.P0_56, true},
	{P0_57, false},
	{P0_58, false},
	{(*recvP).P0_58, true},
	{recvV.P0_58, true},
	{P0_59, false},
	{P0_60, false},
	{(*recvP).P0_60, true},
	{recvV.P0_60, true},
	{P0_61, false},
	{P0_62, false},
	{(*recvP).P0_62, true},
	{recvV.P0_62, true},
	{P0_63, false},
	{P0_64, false},
	{(*recvP).P0_64, true},
	{recvV.P0_64, true},
	{P1_1, false},
	{(*recvP).P1_1, true},
	{recvV.P1_1, true},
	{P1_2, false},
	{(*recvP).P1_2, true},
	{recvV.P1_2, true},
	{P1_3, false},
	{(*recvP).P1_3, true},
	{recvV.P1_3, true},
	{P1_4, false},
	{(*recvP).P1_4, true},
	{recvV.P1_4, true},
	{P1_5, false},
	{(*recvP).P1_5, true},
	{recvV.P1_5, true},
	{P1_6, false},
	{(*recvP).P1_6, true},
	{recvV.P1_6, true},
	{P1_7, false},
	{(*recvP).P1_7, true},
	{recvV.P1_7, true},
	{P1_8, false},
	{(*recvP).P1_8, true},
	{recvV.P1_8, true},
	{P1_9, false},
	{(*recvP).P1_9, true},
	{recvV.P1_9, true},
	{P1_10, false},
	{(*recvP).P1_10, true},
	{recvV.P1_10, true},
	{P1_11, false},
	{(*recvP).P1_11, true},
	{recvV.P1_11, true},
	{P1_12, false},
	{(*recvP).P1_12, true},
	{recvV.P1_12, true},
	{P1_13, false},
	{(*recvP).P1_13, true},
	{recvV.P1_13, true},
	{P1_14, false},
	{(*recvP).P1_14, true},
	{recvV.P1_14, true},
	{P1_15, false},
	{(*recvP).P1_15, true},
	{recvV.P1_15, true},
	{P1_16, false},
	{(*recvP).P1_16, true},
	{recvV.P1_16, true},
	{P1_17, false},
	{(*recvP).P1_17, true},
	{recvV.P1_17, true},
	{P1_18, false},
	{(*recvP).P1_18, true},
	{recvV.P1_18, true},
	{P1_19, false},
	{(*recvP).P1_19, true},
	{recvV.P1_19, true},
	{P1_20, false},
	{(*recvP).P1_20, true},
	{recvV.P1_20, true},
	{P1_21, false},
	{(*recvP).P1_21, true},
	{recvV.P1_21, true},
	{P1_22, false},
	{(*recvP).P1_22, true},
	{recvV.P1_22, true},
	{P1_23, false},
	{(*recvP).P1_23, true},
	{recvV.P1_23, true},
	{P1_24, false},
	{(*recvP).P1_24, true},
	{recvV.P1_24, true},
	{P1_25, false},
	{(*recvP).P1_25, true},
	{recvV.P1_25, true},
	{P1_26, false},
	{(*recvP).P1_26, true},
	{recvV.P1_26, true},
	{P1_27, false},
	{(*recvP).P1_27, true},
	{recvV.P1_27, true},
	{P1_28, false},
	{(*recvP).P1_28, true},
	{recvV.P1_28, true},
	{P1_29, false},
	{(*recvP).P1_29, true},
	{recvV.P1_29, true},
	{P1_30, false},
	{(*recvP).P1_30, true},
	{recvV.P1_30, true},
	{P1_31, false},
	{(*recvP).P1_31, true},
	{recvV.P1_31, true},
	{P1_32, false},
	{(*recvP).P1_32, true},
	{recvV.P1_32, true},
	{P1_33, false},
	{(*recvP).P1_33, true},
	{recvV.P1_33, true},
	{P1_34, false},
	{(*recvP).P1_34, true},
	{recvV.P1_34, true},
	{P1_35, false},
	{(*recvP).P1_35, true},
	{recvV.P1_35, true},
	{P1_36, false},
	{(*recvP).P1_36, true},
	{recvV.P1_36, true},
	{P1_37, false},
	{(*recvP).P1_37, true},
	{recvV.P1_37, true},
	{P1_38, false},
	{(*recvP).P1_38, true},
	{recvV.P1_38, true},
	{P1_39, false},
	{(*recvP).P1_39, true},
	{recvV.P1_39, true},
	{P1_40, false},
	{(*recvP).P1_40, true},
	{recvV.P1_40, true},
	{P1_41, false},
	{(*recvP).P1_41, true},
	{recvV.P1_41, true},
	{P1_42, false},
	{(*recvP).P1_42, true},
	{recvV.P1_42, true},
	{P1_43, false},
	{(*recvP).P1_43, true},
	{recvV.P1_43, true},
	{P1_44, false},
	{(*recvP).P1_44, true},
	{recvV.P1_44, true},
	{P1_45, false},
	{(*recvP).P1_45, true},
	{recvV.P1_45, true},
	{P1_46, false},
	{(*recvP).P1_46, true},
	{recvV.P1_46, true},
	{P1_47, false},
	{(*recvP).P1_47, true},
	{recvV.P1_47, true},
	{P1_48, false},
	{(*recvP).P1_48, true},
	{recvV.P1_48, true},
	{P1_49, false},
	{(*recvP).P1_49, true},
	{recvV.P1_49, true},
	{P1_50, false},
	{(*recvP).P1_50, true},
	{recvV.P1_50, true},
	{P1_51, false},
	{(*recvP).P1_51, true},
	{recvV.P1_51, true},
	{P1_52, false},
	{(*recvP).P1_52, true},
	{recvV.P1_52, true},
	{P1_53, false},
	{(*recvP).P1_53, true},
	{recvV.P1_53, true},
	{P1_54, false},
	{(*recvP).P1_54, true},
	{recvV.P1_54, true},
	{P1_55, false},
	{(*recvP).P1_55, true},
	{recvV.P1_55, true},
	{P1_56, false},
	{(*recvP).P1_56, true},
	{recvV.P1_56, true},
	{P1_57, false},
	{(*recvP).P1_57, true},
	{recvV.P1_57, true},
	{P1_58, false},
	{(*recvP).P1_58, true},
	{recvV.P1_58, true},
	{P1_59, false},
	{(*recvP).P1_59, true},
	{recvV.P1_59, true},
	{P1_60, false},
	{(*recvP).P1_60, true},
	{recvV.P1_60, true},
	{P1_61, false},
	{(*recvP).P1_61, true},
	{recvV.P1_61, true},
	{P1_62, false},
	{(*recvP).P1_62, true},
	{recvV.P1_62, true},
	{P1_63, false},
	{(*recvP).P1_63, true},
	{recvV.P1_63, true},
	{P1_64, false},
	{(*recvP).P1_64, true},
	{recvV.P1_64, true},
	{P2_1, false},
	{(*recvP).P2_1, true},
	{recvV.P2_1, true},
	{P2_2, false},
	{(*recvP).P2_2, true},
	{recvV.P2_2, true},
	{P2_3, false},
	{(*recvP).P2_3, true},
	{recvV.P2_3, true},
	{P2_4, false},
	{(*recvP).P2_4, true},
	{recvV.P2_4, true},
	{P2_5, false},
	{(*recvP).P2_5, true},
	{recvV.P2_5, true},
	{P2_6, false},
	{(*recvP).P2_6, true},
	{recvV.P2_6, true},
	{P2_7, false},
	{(*recvP).P2_7, true},
	{recvV.P2_7, true},
	{P2_8, false},
	{(*recvP).P2_8, true},
	{recvV.P2_8, true},
	{P2_9, false},
	{(*recvP).P2_9, true},
	{recvV.P2_9, true},
	{P2_10, false},
	{(*recvP).P2_10, true},
	{recvV.P2_10, true},
	{P2_11, false},
	{(*recvP).P2_11, true},
	{recvV.P2_11, true},
	{P2_12, false},
	{(*recvP).P2_12, true},
	{recvV.P2_12, true},
	{P2_13, false},
	{(*recvP).P2_13, true},
	{recvV.P2_13, true},
	{P2_14, false},
	{(*recvP).P2_14, true},
	{recvV.P2_14, true},
	{P2_15, false},
	{(*recvP).P2_15, true},
	{recvV.P2_15, true},
	{P2_16, false},
	{(*recvP).P2_16, true},
	{recvV.P2_16, true},
	{P2_17, false},
	{(*recvP).P2_17, true},
	{recvV.P2_17, true},
	{P2_18, false},
	{(*recvP).P2_18, true},
	{recvV.P2_18, true},
	{P2_19, false},
	{(*recvP).P2_19, true},
	{recvV.P2_19, true},
	{P2_20, false},
	{(*recvP).P2_20, true},
	{recvV.P2_20, true},
	{P2_21, false},
	{(*recvP).P2_21, true},
	{recvV.P2_21, true},
	{P2_22, false},
	{(*recvP).P2_22, true},
	{recvV.P2_22, true},
	{P2_23, false},
	{(*recvP).P2_23, true},
	{recvV.P2_23, true},
	{P2_24, false},
	{(*recvP).P2_24, true},
	{recvV.P2_24, true},
	{P2_25, false},
	{(*recvP).P2_25, true},
	{recvV.P2_25, true},
	{P2_26, false},
	{(*recvP).P2_26, true},
	{recvV.P2_26, true},
	{P2_27, false},
	{(*recvP).P2_27, true},
	{recvV.P2_27, true},
	{P2_28, false},
	{(*recvP).P2_28, true},
	{recvV.P2_28, true},
	{P2_29, false},
	{(*recvP).P2_29, true},
	{recvV.P2_29, true},
	{P2_30, false},
	{(*recvP).P2_30, true},
	{recvV.P2_30, true},
	{P2_31, false},
	{(*recvP).P2_31, true},
	{recvV.P2_31, true},
	{P2_32, false},
	{(*recvP).P2_32, true},
	{recvV.P2_32, true},
	{P2_33, false},
	{(*recvP).P2_33, true},
	{recvV.P2_33, true},
	{P2_34, false},
	{(*recvP).P2_34, true},
	{recvV.P2_34, true},
	{P2_35, false},
	{(*recvP).P2_35, true},
	{recvV.P2_35, true},
	{P2_36, false},
	{(*recvP).P2_36, true},
	{recvV.P2_36, true},
	{P2_37, false},
	{(*recvP).P2_37, true},
	{recvV.P2_37, true},
	{P2_38, false},
	{(*recvP).P2_38, true},
	{recvV.P2_38, true},
	{P2_39, false},
	{(*recvP).P2_39, true},
	{recvV.P2_39, true},
	{P2_40, false},
	{(*recvP).P2_40, true},
	{recvV.P2_40, true},
	{P2_41, false},
	{(*recvP).P2_41, true},
	{recvV.P2_41, true},
	{P2_42, false},
	{(*recvP).P2_42, true},
	{recvV.P2_42, true},
	{P2_43, false},
	{(*recvP).P2_43, true},
	{recvV.P2_43, true},
	{P2_44, false},
	{(*recvP).P2_44, true},
	{recvV.P2_44, true},
	{P2_45, false},
	{(*recvP).P2_45, true},
	{recvV.P2_45, true},
	{P2_46, false},
	{(*recvP).P2_46, true},
	{recvV.P2_46, true},
	{P2_47, false},
	{(*recvP).P2_47, true},
	{recvV.P2_47, true},
	{P2_48, false},
	{(*recvP).P2_48, true},
	{recvV.P2_48, true},
	{P2_49, false},
	{(*recvP).P2_49, true},
	{recvV.P2_49, true},
	{P2_50, false},
	{(*recvP).P2_50, true},
	{recvV.P2_50, true},
	{P2_51, false},
	{(*recvP).P2_51, true},
	{recvV.P2_51, true},
	{P2_52, false},
	{(*recvP).P2_52, true},
	{recvV.P2_52, true},
	{P2_53, false},
	{(*recvP).P2_53, true},
	{recvV.P2_53, true},
	{P2_54, false},
	{(*recvP).P2_54, true},
	{recvV.P2_54, true},
	{P2_55, false},
	{(*recvP).P2_55, true},
	{recvV.P2_55, true},
	{P2_56, false},
	{(*recvP).P2_56, true},
	{recvV.P2_56, true},
	{P2_57, false},
	{(*recvP).P2_57, true},
	{recvV.P2_57, true},
	{P2_58, false},
	{(*recvP).P2_58, true},
	{recvV.P2_58, true},
	{P2_59, false},
	{(*recvP).P2_59, true},
	{recvV.P2_59, true},
	{P2_60, false},
	{(*recvP).P2_60, true},
	{recvV.P2_60, true},
	{P2_61, false},
	{(*recvP).P2_61, true},
	{recvV.P2_61, true},
	{P2_62, false},
	{(*recvP).P2_62, true},
	{recvV.P2_62, true},
	{P2_63, false},
	{(*recvP).P2_63, true},
	{recvV.P2_63, true},
	{P2_64, false},
	{(*recvP).P2_64, true},
	{recvV.P2_64, true},
}
