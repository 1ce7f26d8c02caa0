// Code generated by tools/gen_abi.py. DO NOT EDIT.

package abi

import "reflect"

//go:nosplit
func M1(p0 int) int {
	gT0[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M2(p0 string) string {
	gT1[0].O = p0
	return gT1[0].R
}

//go:nosplit
func M3(p0 float64) float64 {
	gT2[0].O = p0
	return gT2[0].R
}

//go:nosplit
func M4(p0 interface{}) interface{} {
	gT3[0].O = p0
	return gT3[0].R
}

//go:nosplit
func M5(p0 five) five {
	gT4[0].O = p0
	return gT4[0].R
}

//go:nosplit
func M6(p0 mixed) mixed {
	gT5[0].O = p0
	return gT5[0].R
}

//go:nosplit
func M7(p0 []byte) []byte {
	gT6[0].O = p0
	return gT6[0].R
}

//go:nosplit
func M8(p0 int, p1 int) (int, int) {
	gT0[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT0[1].R
}

//go:nosplit
func M9(p0 int, p1 string) (string, int) {
	gT0[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT0[1].R
}

//go:nosplit
func M10(p0 int, p1 float64) (float64, int) {
	gT0[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT0[1].R
}

//go:nosplit
func M11(p0 int, p1 interface{}) (interface{}, int) {
	gT0[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT0[1].R
}

//go:nosplit
func M12(p0 int, p1 five) (five, int) {
	gT0[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT0[1].R
}

//go:nosplit
func M13(p0 int, p1 mixed) (mixed, int) {
	gT0[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT0[1].R
}

//go:nosplit
func M14(p0 int, p1 []byte) ([]byte, int) {
	gT0[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT0[1].R
}

//go:nosplit
func M15(p0 string, p1 int) (int, string) {
	gT1[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT1[1].R
}

//go:nosplit
func M16(p0 string, p1 string) (string, string) {
	gT1[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT1[1].R
}

//go:nosplit
func M17(p0 string, p1 float64) (float64, string) {
	gT1[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT1[1].R
}

//go:nosplit
func M18(p0 string, p1 interface{}) (interface{}, string) {
	gT1[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT1[1].R
}

//go:nosplit
func M19(p0 string, p1 five) (five, string) {
	gT1[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT1[1].R
}

//go:nosplit
func M20(p0 string, p1 mixed) (mixed, string) {
	gT1[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT1[1].R
}

//go:nosplit
func M21(p0 string, p1 []byte) ([]byte, string) {
	gT1[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT1[1].R
}

//go:nosplit
func M22(p0 float64, p1 int) (int, float64) {
	gT2[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT2[1].R
}

//go:nosplit
func M23(p0 float64, p1 string) (string, float64) {
	gT2[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT2[1].R
}

//go:nosplit
func M24(p0 float64, p1 float64) (float64, float64) {
	gT2[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT2[1].R
}

//go:nosplit
func M25(p0 float64, p1 interface{}) (interface{}, float64) {
	gT2[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT2[1].R
}

//go:nosplit
func M26(p0 float64, p1 five) (five, float64) {
	gT2[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT2[1].R
}

//go:nosplit
func M27(p0 float64, p1 mixed) (mixed, float64) {
	gT2[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT2[1].R
}

//go:nosplit
func M28(p0 float64, p1 []byte) ([]byte, float64) {
	gT2[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT2[1].R
}

//go:nosplit
func M29(p0 interface{}, p1 int) (int, interface{}) {
	gT3[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT3[1].R
}

//go:nosplit
func M30(p0 interface{}, p1 string) (string, interface{}) {
	gT3[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT3[1].R
}

//go:nosplit
func M31(p0 interface{}, p1 float64) (float64, interface{}) {
	gT3[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT3[1].R
}

//go:nosplit
func M32(p0 interface{}, p1 interface{}) (interface{}, interface{}) {
	gT3[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT3[1].R
}

//go:nosplit
func M33(p0 interface{}, p1 five) (five, interface{}) {
	gT3[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT3[1].R
}

//go:nosplit
func M34(p0 interface{}, p1 mixed) (mixed, interface{}) {
	gT3[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT3[1].R
}

//go:nosplit
func M35(p0 interface{}, p1 []byte) ([]byte, interface{}) {
	gT3[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT3[1].R
}

//go:nosplit
func M36(p0 five, p1 int) (int, five) {
	gT4[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT4[1].R
}

//go:nosplit
func M37(p0 five, p1 string) (string, five) {
	gT4[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT4[1].R
}

//go:nosplit
func M38(p0 five, p1 float64) (float64, five) {
	gT4[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT4[1].R
}

//go:nosplit
func M39(p0 five, p1 interface{}) (interface{}, five) {
	gT4[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT4[1].R
}

//go:nosplit
func M40(p0 five, p1 five) (five, five) {
	gT4[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT4[1].R
}

//go:nosplit
func M41(p0 five, p1 mixed) (mixed, five) {
	gT4[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT4[1].R
}

//go:nosplit
func M42(p0 five, p1 []byte) ([]byte, five) {
	gT4[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT4[1].R
}

//go:nosplit
func M43(p0 mixed, p1 int) (int, mixed) {
	gT5[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT5[1].R
}

//go:nosplit
func M44(p0 mixed, p1 string) (string, mixed) {
	gT5[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT5[1].R
}

//go:nosplit
func M45(p0 mixed, p1 float64) (float64, mixed) {
	gT5[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT5[1].R
}

//go:nosplit
func M46(p0 mixed, p1 interface{}) (interface{}, mixed) {
	gT5[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT5[1].R
}

//go:nosplit
func M47(p0 mixed, p1 five) (five, mixed) {
	gT5[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT5[1].R
}

//go:nosplit
func M48(p0 mixed, p1 mixed) (mixed, mixed) {
	gT5[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT5[1].R
}

//go:nosplit
func M49(p0 mixed, p1 []byte) ([]byte, mixed) {
	gT5[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT5[1].R
}

//go:nosplit
func M50(p0 []byte, p1 int) (int, []byte) {
	gT6[0].O = p0
	gT0[1].O = p1
	return gT0[0].R, gT6[1].R
}

//go:nosplit
func M51(p0 []byte, p1 string) (string, []byte) {
	gT6[0].O = p0
	gT1[1].O = p1
	return gT1[0].R, gT6[1].R
}

//go:nosplit
func M52(p0 []byte, p1 float64) (float64, []byte) {
	gT6[0].O = p0
	gT2[1].O = p1
	return gT2[0].R, gT6[1].R
}

//go:nosplit
func M53(p0 []byte, p1 interface{}) (interface{}, []byte) {
	gT6[0].O = p0
	gT3[1].O = p1
	return gT3[0].R, gT6[1].R
}

//go:nosplit
func M54(p0 []byte, p1 five) (five, []byte) {
	gT6[0].O = p0
	gT4[1].O = p1
	return gT4[0].R, gT6[1].R
}

//go:nosplit
func M55(p0 []byte, p1 mixed) (mixed, []byte) {
	gT6[0].O = p0
	gT5[1].O = p1
	return gT5[0].R, gT6[1].R
}

//go:nosplit
func M56(p0 []byte, p1 []byte) ([]byte, []byte) {
	gT6[0].O = p0
	gT6[1].O = p1
	return gT6[0].R, gT6[1].R
}

//go:nosplit
func M57(p0 ...int) int {
	gT7[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M58(p0 ...string) int {
	gT8[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M59(p0 ...float64) int {
	gT9[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M60(p0 ...interface{}) int {
	gT10[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M61(p0 ...five) int {
	gT11[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M62(p0 ...mixed) int {
	gT12[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M63(p0 ...[]byte) int {
	gT13[0].O = p0
	return gT0[0].R
}

//go:nosplit
func M64(p0 float64, p1 ...int) float64 {
	gT2[0].O = p0
	gT7[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M65(p0 float64, p1 ...string) float64 {
	gT2[0].O = p0
	gT8[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M66(p0 float64, p1 ...float64) float64 {
	gT2[0].O = p0
	gT9[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M67(p0 float64, p1 ...interface{}) float64 {
	gT2[0].O = p0
	gT10[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M68(p0 float64, p1 ...five) float64 {
	gT2[0].O = p0
	gT11[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M69(p0 float64, p1 ...mixed) float64 {
	gT2[0].O = p0
	gT12[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M70(p0 float64, p1 ...[]byte) float64 {
	gT2[0].O = p0
	gT13[1].O = p1
	return gT2[0].R
}

//go:nosplit
func M71(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gT0[0].O = p0
	gT0[1].O = p1
	gT0[2].O = p2
	gT0[3].O = p3
	gT0[4].O = p4
	gT0[5].O = p5
	gT0[6].O = p6
	gT0[7].O = p7
	gT0[8].O = p8
	gT0[9].O = p9
	return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
}

//go:nosplit
func M72(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
	gT2[0].O = p0
	gT2[1].O = p1
	gT2[2].O = p2
	gT2[3].O = p3
	gT2[4].O = p4
	gT2[5].O = p5
	gT2[6].O = p6
	gT2[7].O = p7
	gT2[8].O = p8
	gT2[9].O = p9
	gT2[10].O = p10
	gT2[11].O = p11
	gT2[12].O = p12
	gT2[13].O = p13
	gT2[14].O = p14
	gT2[15].O = p15
	gT2[16].O = p16
	return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
}

//go:nosplit
func M73(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
	gT1[0].O = p0
	gT4[1].O = p1
	gT0[2].O = p2
	gT5[3].O = p3
	gT0[4].O = p4
	return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
}

//go:nosplit
func (r *rp) M74(p0 int) int {
	gT14[0].O = r
	gT0[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M75(p0 string) string {
	gT14[0].O = r
	gT1[1].O = p0
	return gT1[0].R
}

//go:nosplit
func (r *rp) M76(p0 float64) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	return gT2[0].R
}

//go:nosplit
func (r *rp) M77(p0 interface{}) interface{} {
	gT14[0].O = r
	gT3[1].O = p0
	return gT3[0].R
}

//go:nosplit
func (r *rp) M78(p0 five) five {
	gT14[0].O = r
	gT4[1].O = p0
	return gT4[0].R
}

//go:nosplit
func (r *rp) M79(p0 mixed) mixed {
	gT14[0].O = r
	gT5[1].O = p0
	return gT5[0].R
}

//go:nosplit
func (r *rp) M80(p0 []byte) []byte {
	gT14[0].O = r
	gT6[1].O = p0
	return gT6[0].R
}

//go:nosplit
func (r *rp) M81(p0 int, p1 int) (int, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M82(p0 int, p1 string) (string, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M83(p0 int, p1 float64) (float64, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M84(p0 int, p1 interface{}) (interface{}, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M85(p0 int, p1 five) (five, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M86(p0 int, p1 mixed) (mixed, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M87(p0 int, p1 []byte) ([]byte, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT0[1].R
}

//go:nosplit
func (r *rp) M88(p0 string, p1 int) (int, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M89(p0 string, p1 string) (string, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M90(p0 string, p1 float64) (float64, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M91(p0 string, p1 interface{}) (interface{}, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M92(p0 string, p1 five) (five, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M93(p0 string, p1 mixed) (mixed, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M94(p0 string, p1 []byte) ([]byte, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT1[1].R
}

//go:nosplit
func (r *rp) M95(p0 float64, p1 int) (int, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M96(p0 float64, p1 string) (string, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M97(p0 float64, p1 float64) (float64, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M98(p0 float64, p1 interface{}) (interface{}, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M99(p0 float64, p1 five) (five, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M100(p0 float64, p1 mixed) (mixed, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M101(p0 float64, p1 []byte) ([]byte, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT2[1].R
}

//go:nosplit
func (r *rp) M102(p0 interface{}, p1 int) (int, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M103(p0 interface{}, p1 string) (string, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M104(p0 interface{}, p1 float64) (float64, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M105(p0 interface{}, p1 interface{}) (interface{}, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M106(p0 interface{}, p1 five) (five, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M107(p0 interface{}, p1 mixed) (mixed, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M108(p0 interface{}, p1 []byte) ([]byte, interface{}) {
	gT14[0].O = r
	gT3[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT3[1].R
}

//go:nosplit
func (r *rp) M109(p0 five, p1 int) (int, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M110(p0 five, p1 string) (string, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M111(p0 five, p1 float64) (float64, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M112(p0 five, p1 interface{}) (interface{}, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M113(p0 five, p1 five) (five, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M114(p0 five, p1 mixed) (mixed, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M115(p0 five, p1 []byte) ([]byte, five) {
	gT14[0].O = r
	gT4[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT4[1].R
}

//go:nosplit
func (r *rp) M116(p0 mixed, p1 int) (int, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M117(p0 mixed, p1 string) (string, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M118(p0 mixed, p1 float64) (float64, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M119(p0 mixed, p1 interface{}) (interface{}, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M120(p0 mixed, p1 five) (five, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M121(p0 mixed, p1 mixed) (mixed, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M122(p0 mixed, p1 []byte) ([]byte, mixed) {
	gT14[0].O = r
	gT5[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT5[1].R
}

//go:nosplit
func (r *rp) M123(p0 []byte, p1 int) (int, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M124(p0 []byte, p1 string) (string, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M125(p0 []byte, p1 float64) (float64, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M126(p0 []byte, p1 interface{}) (interface{}, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M127(p0 []byte, p1 five) (five, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M128(p0 []byte, p1 mixed) (mixed, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M129(p0 []byte, p1 []byte) ([]byte, []byte) {
	gT14[0].O = r
	gT6[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT6[1].R
}

//go:nosplit
func (r *rp) M130(p0 ...int) int {
	gT14[0].O = r
	gT7[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M131(p0 ...string) int {
	gT14[0].O = r
	gT8[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M132(p0 ...float64) int {
	gT14[0].O = r
	gT9[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M133(p0 ...interface{}) int {
	gT14[0].O = r
	gT10[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M134(p0 ...five) int {
	gT14[0].O = r
	gT11[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M135(p0 ...mixed) int {
	gT14[0].O = r
	gT12[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M136(p0 ...[]byte) int {
	gT14[0].O = r
	gT13[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r *rp) M137(p0 float64, p1 ...int) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT7[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M138(p0 float64, p1 ...string) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT8[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M139(p0 float64, p1 ...float64) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT9[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M140(p0 float64, p1 ...interface{}) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT10[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M141(p0 float64, p1 ...five) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT11[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M142(p0 float64, p1 ...mixed) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT12[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M143(p0 float64, p1 ...[]byte) float64 {
	gT14[0].O = r
	gT2[1].O = p0
	gT13[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r *rp) M144(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gT14[0].O = r
	gT0[1].O = p0
	gT0[2].O = p1
	gT0[3].O = p2
	gT0[4].O = p3
	gT0[5].O = p4
	gT0[6].O = p5
	gT0[7].O = p6
	gT0[8].O = p7
	gT0[9].O = p8
	gT0[10].O = p9
	return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
}

//go:nosplit
func (r *rp) M145(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
	gT14[0].O = r
	gT2[1].O = p0
	gT2[2].O = p1
	gT2[3].O = p2
	gT2[4].O = p3
	gT2[5].O = p4
	gT2[6].O = p5
	gT2[7].O = p6
	gT2[8].O = p7
	gT2[9].O = p8
	gT2[10].O = p9
	gT2[11].O = p10
	gT2[12].O = p11
	gT2[13].O = p12
	gT2[14].O = p13
	gT2[15].O = p14
	gT2[16].O = p15
	gT2[17].O = p16
	return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
}

//go:nosplit
func (r *rp) M146(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
	gT14[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	gT0[3].O = p2
	gT5[4].O = p3
	gT0[5].O = p4
	return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
}

//go:nosplit
func (r rs) M147(p0 int) int {
	gT15[0].O = r
	gT0[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M148(p0 string) string {
	gT15[0].O = r
	gT1[1].O = p0
	return gT1[0].R
}

//go:nosplit
func (r rs) M149(p0 float64) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	return gT2[0].R
}

//go:nosplit
func (r rs) M150(p0 interface{}) interface{} {
	gT15[0].O = r
	gT3[1].O = p0
	return gT3[0].R
}

//go:nosplit
func (r rs) M151(p0 five) five {
	gT15[0].O = r
	gT4[1].O = p0
	return gT4[0].R
}

//go:nosplit
func (r rs) M152(p0 mixed) mixed {
	gT15[0].O = r
	gT5[1].O = p0
	return gT5[0].R
}

//go:nosplit
func (r rs) M153(p0 []byte) []byte {
	gT15[0].O = r
	gT6[1].O = p0
	return gT6[0].R
}

//go:nosplit
func (r rs) M154(p0 int, p1 five) (five, int) {
	gT15[0].O = r
	gT0[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT0[1].R
}

//go:nosplit
func (r rs) M155(p0 string, p1 five) (five, string) {
	gT15[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT1[1].R
}

//go:nosplit
func (r rs) M156(p0 float64, p1 five) (five, float64) {
	gT15[0].O = r
	gT2[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT2[1].R
}

//go:nosplit
func (r rs) M157(p0 interface{}, p1 five) (five, interface{}) {
	gT15[0].O = r
	gT3[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT3[1].R
}

//go:nosplit
func (r rs) M158(p0 five, p1 int) (int, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M159(p0 five, p1 string) (string, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M160(p0 five, p1 float64) (float64, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M161(p0 five, p1 interface{}) (interface{}, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M162(p0 five, p1 five) (five, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M163(p0 five, p1 mixed) (mixed, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M164(p0 five, p1 []byte) ([]byte, five) {
	gT15[0].O = r
	gT4[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT4[1].R
}

//go:nosplit
func (r rs) M165(p0 mixed, p1 int) (int, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M166(p0 mixed, p1 string) (string, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M167(p0 mixed, p1 float64) (float64, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M168(p0 mixed, p1 interface{}) (interface{}, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M169(p0 mixed, p1 five) (five, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M170(p0 mixed, p1 mixed) (mixed, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M171(p0 mixed, p1 []byte) ([]byte, mixed) {
	gT15[0].O = r
	gT5[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT5[1].R
}

//go:nosplit
func (r rs) M172(p0 []byte, p1 five) (five, []byte) {
	gT15[0].O = r
	gT6[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT6[1].R
}

//go:nosplit
func (r rs) M173(p0 ...int) int {
	gT15[0].O = r
	gT7[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M174(p0 ...string) int {
	gT15[0].O = r
	gT8[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M175(p0 ...float64) int {
	gT15[0].O = r
	gT9[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M176(p0 ...interface{}) int {
	gT15[0].O = r
	gT10[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M177(p0 ...five) int {
	gT15[0].O = r
	gT11[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M178(p0 ...mixed) int {
	gT15[0].O = r
	gT12[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M179(p0 ...[]byte) int {
	gT15[0].O = r
	gT13[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rs) M180(p0 float64, p1 ...int) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT7[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M181(p0 float64, p1 ...string) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT8[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M182(p0 float64, p1 ...float64) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT9[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M183(p0 float64, p1 ...interface{}) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT10[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M184(p0 float64, p1 ...five) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT11[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M185(p0 float64, p1 ...mixed) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT12[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M186(p0 float64, p1 ...[]byte) float64 {
	gT15[0].O = r
	gT2[1].O = p0
	gT13[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rs) M187(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gT15[0].O = r
	gT0[1].O = p0
	gT0[2].O = p1
	gT0[3].O = p2
	gT0[4].O = p3
	gT0[5].O = p4
	gT0[6].O = p5
	gT0[7].O = p6
	gT0[8].O = p7
	gT0[9].O = p8
	gT0[10].O = p9
	return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
}

//go:nosplit
func (r rs) M188(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
	gT15[0].O = r
	gT2[1].O = p0
	gT2[2].O = p1
	gT2[3].O = p2
	gT2[4].O = p3
	gT2[5].O = p4
	gT2[6].O = p5
	gT2[7].O = p6
	gT2[8].O = p7
	gT2[9].O = p8
	gT2[10].O = p9
	gT2[11].O = p10
	gT2[12].O = p11
	gT2[13].O = p12
	gT2[14].O = p13
	gT2[15].O = p14
	gT2[16].O = p15
	gT2[17].O = p16
	return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
}

//go:nosplit
func (r rs) M189(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
	gT15[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	gT0[3].O = p2
	gT5[4].O = p3
	gT0[5].O = p4
	return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
}

//go:nosplit
func (r rb) M190(p0 int) int {
	gT16[0].O = r
	gT0[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M191(p0 string) string {
	gT16[0].O = r
	gT1[1].O = p0
	return gT1[0].R
}

//go:nosplit
func (r rb) M192(p0 float64) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	return gT2[0].R
}

//go:nosplit
func (r rb) M193(p0 interface{}) interface{} {
	gT16[0].O = r
	gT3[1].O = p0
	return gT3[0].R
}

//go:nosplit
func (r rb) M194(p0 five) five {
	gT16[0].O = r
	gT4[1].O = p0
	return gT4[0].R
}

//go:nosplit
func (r rb) M195(p0 mixed) mixed {
	gT16[0].O = r
	gT5[1].O = p0
	return gT5[0].R
}

//go:nosplit
func (r rb) M196(p0 []byte) []byte {
	gT16[0].O = r
	gT6[1].O = p0
	return gT6[0].R
}

//go:nosplit
func (r rb) M197(p0 int, p1 five) (five, int) {
	gT16[0].O = r
	gT0[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT0[1].R
}

//go:nosplit
func (r rb) M198(p0 string, p1 five) (five, string) {
	gT16[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT1[1].R
}

//go:nosplit
func (r rb) M199(p0 float64, p1 five) (five, float64) {
	gT16[0].O = r
	gT2[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT2[1].R
}

//go:nosplit
func (r rb) M200(p0 interface{}, p1 five) (five, interface{}) {
	gT16[0].O = r
	gT3[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT3[1].R
}

//go:nosplit
func (r rb) M201(p0 five, p1 int) (int, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M202(p0 five, p1 string) (string, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M203(p0 five, p1 float64) (float64, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M204(p0 five, p1 interface{}) (interface{}, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M205(p0 five, p1 five) (five, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M206(p0 five, p1 mixed) (mixed, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M207(p0 five, p1 []byte) ([]byte, five) {
	gT16[0].O = r
	gT4[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT4[1].R
}

//go:nosplit
func (r rb) M208(p0 mixed, p1 int) (int, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M209(p0 mixed, p1 string) (string, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M210(p0 mixed, p1 float64) (float64, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M211(p0 mixed, p1 interface{}) (interface{}, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M212(p0 mixed, p1 five) (five, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M213(p0 mixed, p1 mixed) (mixed, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M214(p0 mixed, p1 []byte) ([]byte, mixed) {
	gT16[0].O = r
	gT5[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT5[1].R
}

//go:nosplit
func (r rb) M215(p0 []byte, p1 five) (five, []byte) {
	gT16[0].O = r
	gT6[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT6[1].R
}

//go:nosplit
func (r rb) M216(p0 ...int) int {
	gT16[0].O = r
	gT7[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M217(p0 ...string) int {
	gT16[0].O = r
	gT8[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M218(p0 ...float64) int {
	gT16[0].O = r
	gT9[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M219(p0 ...interface{}) int {
	gT16[0].O = r
	gT10[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M220(p0 ...five) int {
	gT16[0].O = r
	gT11[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M221(p0 ...mixed) int {
	gT16[0].O = r
	gT12[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M222(p0 ...[]byte) int {
	gT16[0].O = r
	gT13[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rb) M223(p0 float64, p1 ...int) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT7[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M224(p0 float64, p1 ...string) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT8[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M225(p0 float64, p1 ...float64) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT9[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M226(p0 float64, p1 ...interface{}) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT10[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M227(p0 float64, p1 ...five) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT11[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M228(p0 float64, p1 ...mixed) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT12[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M229(p0 float64, p1 ...[]byte) float64 {
	gT16[0].O = r
	gT2[1].O = p0
	gT13[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rb) M230(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gT16[0].O = r
	gT0[1].O = p0
	gT0[2].O = p1
	gT0[3].O = p2
	gT0[4].O = p3
	gT0[5].O = p4
	gT0[6].O = p5
	gT0[7].O = p6
	gT0[8].O = p7
	gT0[9].O = p8
	gT0[10].O = p9
	return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
}

//go:nosplit
func (r rb) M231(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
	gT16[0].O = r
	gT2[1].O = p0
	gT2[2].O = p1
	gT2[3].O = p2
	gT2[4].O = p3
	gT2[5].O = p4
	gT2[6].O = p5
	gT2[7].O = p6
	gT2[8].O = p7
	gT2[9].O = p8
	gT2[10].O = p9
	gT2[11].O = p10
	gT2[12].O = p11
	gT2[13].O = p12
	gT2[14].O = p13
	gT2[15].O = p14
	gT2[16].O = p15
	gT2[17].O = p16
	return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
}

//go:nosplit
func (r rb) M232(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
	gT16[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	gT0[3].O = p2
	gT5[4].O = p3
	gT0[5].O = p4
	return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
}

//go:nosplit
func (r rf) M233(p0 int) int {
	gT17[0].O = r
	gT0[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M234(p0 string) string {
	gT17[0].O = r
	gT1[1].O = p0
	return gT1[0].R
}

//go:nosplit
func (r rf) M235(p0 float64) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	return gT2[0].R
}

//go:nosplit
func (r rf) M236(p0 interface{}) interface{} {
	gT17[0].O = r
	gT3[1].O = p0
	return gT3[0].R
}

//go:nosplit
func (r rf) M237(p0 five) five {
	gT17[0].O = r
	gT4[1].O = p0
	return gT4[0].R
}

//go:nosplit
func (r rf) M238(p0 mixed) mixed {
	gT17[0].O = r
	gT5[1].O = p0
	return gT5[0].R
}

//go:nosplit
func (r rf) M239(p0 []byte) []byte {
	gT17[0].O = r
	gT6[1].O = p0
	return gT6[0].R
}

//go:nosplit
func (r rf) M240(p0 int, p1 five) (five, int) {
	gT17[0].O = r
	gT0[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT0[1].R
}

//go:nosplit
func (r rf) M241(p0 string, p1 five) (five, string) {
	gT17[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT1[1].R
}

//go:nosplit
func (r rf) M242(p0 float64, p1 five) (five, float64) {
	gT17[0].O = r
	gT2[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT2[1].R
}

//go:nosplit
func (r rf) M243(p0 interface{}, p1 five) (five, interface{}) {
	gT17[0].O = r
	gT3[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT3[1].R
}

//go:nosplit
func (r rf) M244(p0 five, p1 int) (int, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M245(p0 five, p1 string) (string, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M246(p0 five, p1 float64) (float64, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M247(p0 five, p1 interface{}) (interface{}, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M248(p0 five, p1 five) (five, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M249(p0 five, p1 mixed) (mixed, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M250(p0 five, p1 []byte) ([]byte, five) {
	gT17[0].O = r
	gT4[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT4[1].R
}

//go:nosplit
func (r rf) M251(p0 mixed, p1 int) (int, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT0[2].O = p1
	return gT0[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M252(p0 mixed, p1 string) (string, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT1[2].O = p1
	return gT1[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M253(p0 mixed, p1 float64) (float64, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT2[2].O = p1
	return gT2[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M254(p0 mixed, p1 interface{}) (interface{}, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT3[2].O = p1
	return gT3[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M255(p0 mixed, p1 five) (five, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M256(p0 mixed, p1 mixed) (mixed, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT5[2].O = p1
	return gT5[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M257(p0 mixed, p1 []byte) ([]byte, mixed) {
	gT17[0].O = r
	gT5[1].O = p0
	gT6[2].O = p1
	return gT6[0].R, gT5[1].R
}

//go:nosplit
func (r rf) M258(p0 []byte, p1 five) (five, []byte) {
	gT17[0].O = r
	gT6[1].O = p0
	gT4[2].O = p1
	return gT4[0].R, gT6[1].R
}

//go:nosplit
func (r rf) M259(p0 ...int) int {
	gT17[0].O = r
	gT7[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M260(p0 ...string) int {
	gT17[0].O = r
	gT8[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M261(p0 ...float64) int {
	gT17[0].O = r
	gT9[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M262(p0 ...interface{}) int {
	gT17[0].O = r
	gT10[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M263(p0 ...five) int {
	gT17[0].O = r
	gT11[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M264(p0 ...mixed) int {
	gT17[0].O = r
	gT12[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M265(p0 ...[]byte) int {
	gT17[0].O = r
	gT13[1].O = p0
	return gT0[0].R
}

//go:nosplit
func (r rf) M266(p0 float64, p1 ...int) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT7[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M267(p0 float64, p1 ...string) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT8[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M268(p0 float64, p1 ...float64) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT9[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M269(p0 float64, p1 ...interface{}) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT10[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M270(p0 float64, p1 ...five) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT11[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M271(p0 float64, p1 ...mixed) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT12[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M272(p0 float64, p1 ...[]byte) float64 {
	gT17[0].O = r
	gT2[1].O = p0
	gT13[2].O = p1
	return gT2[0].R
}

//go:nosplit
func (r rf) M273(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
	gT17[0].O = r
	gT0[1].O = p0
	gT0[2].O = p1
	gT0[3].O = p2
	gT0[4].O = p3
	gT0[5].O = p4
	gT0[6].O = p5
	gT0[7].O = p6
	gT0[8].O = p7
	gT0[9].O = p8
	gT0[10].O = p9
	return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
}

//go:nosplit
func (r rf) M274(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
	gT17[0].O = r
	gT2[1].O = p0
	gT2[2].O = p1
	gT2[3].O = p2
	gT2[4].O = p3
	gT2[5].O = p4
	gT2[6].O = p5
	gT2[7].O = p6
	gT2[8].O = p7
	gT2[9].O = p8
	gT2[10].O = p9
	gT2[11].O = p10
	gT2[12].O = p11
	gT2[13].O = p12
	gT2[14].O = p13
	gT2[15].O = p14
	gT2[16].O = p15
	gT2[17].O = p16
	return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
}

//go:nosplit
func (r rf) M275(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
	gT17[0].O = r
	gT1[1].O = p0
	gT4[2].O = p1
	gT0[3].O = p2
	gT5[4].O = p3
	gT0[5].O = p4
	return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
}

var gT0 [20]struct{ O, H, R int }

var gT1 [20]struct{ O, H, R string }

var gT2 [20]struct{ O, H, R float64 }

var gT3 [20]struct{ O, H, R interface{} }

var gT4 [20]struct{ O, H, R five }

var gT5 [20]struct{ O, H, R mixed }

var gT6 [20]struct{ O, H, R []byte }

var gT7 [20]struct{ O, H, R []int }

var gT8 [20]struct{ O, H, R []string }

var gT9 [20]struct{ O, H, R []float64 }

var gT10 [20]struct{ O, H, R []interface{} }

var gT11 [20]struct{ O, H, R []five }

var gT12 [20]struct{ O, H, R []mixed }

var gT13 [20]struct{ O, H, R [][]byte }

var gT14 [20]struct{ O, H, R *rp }

var gT15 [20]struct{ O, H, R rs }

var gT16 [20]struct{ O, H, R rb }

var gT17 [20]struct{ O, H, R rf }

var globals = map[reflect.Type]interface{}{
	reflect.TypeOf((*int)(nil)).Elem():           &gT0,
	reflect.TypeOf((*string)(nil)).Elem():        &gT1,
	reflect.TypeOf((*float64)(nil)).Elem():       &gT2,
	reflect.TypeOf((*interface{})(nil)).Elem():   &gT3,
	reflect.TypeOf((*five)(nil)).Elem():          &gT4,
	reflect.TypeOf((*mixed)(nil)).Elem():         &gT5,
	reflect.TypeOf((*[]byte)(nil)).Elem():        &gT6,
	reflect.TypeOf((*[]int)(nil)).Elem():         &gT7,
	reflect.TypeOf((*[]string)(nil)).Elem():      &gT8,
	reflect.TypeOf((*[]float64)(nil)).Elem():     &gT9,
	reflect.TypeOf((*[]interface{})(nil)).Elem(): &gT10,
	reflect.TypeOf((*[]five)(nil)).Elem():        &gT11,
	reflect.TypeOf((*[]mixed)(nil)).Elem():       &gT12,
	reflect.TypeOf((*[][]byte)(nil)).Elem():      &gT13,
	reflect.TypeOf((**rp)(nil)).Elem():           &gT14,
	reflect.TypeOf((*rs)(nil)).Elem():            &gT15,
	reflect.TypeOf((*rb)(nil)).Elem():            &gT16,
	reflect.TypeOf((*rf)(nil)).Elem():            &gT17,
}

var statics = []static{
	{"func (p0 int)", M1, func(p0 int) int {
		gT0[0].H = p0
		return gT0[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M1(a[0].(int))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M1
			r0 := f(a[0].(int))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 string)", M2, func(p0 string) string {
		gT1[0].H = p0
		return gT1[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M2(a[0].(string))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M2
			r0 := f(a[0].(string))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64)", M3, func(p0 float64) float64 {
		gT2[0].H = p0
		return gT2[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M3(a[0].(float64))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M3
			r0 := f(a[0].(float64))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 interface{})", M4, func(p0 interface{}) interface{} {
		gT3[0].H = p0
		return gT3[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M4(a[0])
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M4
			r0 := f(a[0])
			return []interface{}{r0}
		}},
	}},
	{"func (p0 five)", M5, func(p0 five) five {
		gT4[0].H = p0
		return gT4[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M5(a[0].(five))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M5
			r0 := f(a[0].(five))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 mixed)", M6, func(p0 mixed) mixed {
		gT5[0].H = p0
		return gT5[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M6(a[0].(mixed))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M6
			r0 := f(a[0].(mixed))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 []byte)", M7, func(p0 []byte) []byte {
		gT6[0].H = p0
		return gT6[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M7(a[0].([]byte))
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M7
			r0 := f(a[0].([]byte))
			return []interface{}{r0}
		}},
	}},
	{"func (p0 int, p1 int)", M8, func(p0 int, p1 int) (int, int) {
		gT0[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M8(a[0].(int), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M8
			r0, r1 := f(a[0].(int), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 string)", M9, func(p0 int, p1 string) (string, int) {
		gT0[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M9(a[0].(int), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M9
			r0, r1 := f(a[0].(int), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 float64)", M10, func(p0 int, p1 float64) (float64, int) {
		gT0[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M10(a[0].(int), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M10
			r0, r1 := f(a[0].(int), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 interface{})", M11, func(p0 int, p1 interface{}) (interface{}, int) {
		gT0[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M11(a[0].(int), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M11
			r0, r1 := f(a[0].(int), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 five)", M12, func(p0 int, p1 five) (five, int) {
		gT0[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M12(a[0].(int), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M12
			r0, r1 := f(a[0].(int), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 mixed)", M13, func(p0 int, p1 mixed) (mixed, int) {
		gT0[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M13(a[0].(int), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M13
			r0, r1 := f(a[0].(int), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 int, p1 []byte)", M14, func(p0 int, p1 []byte) ([]byte, int) {
		gT0[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M14(a[0].(int), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M14
			r0, r1 := f(a[0].(int), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 int)", M15, func(p0 string, p1 int) (int, string) {
		gT1[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M15(a[0].(string), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M15
			r0, r1 := f(a[0].(string), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 string)", M16, func(p0 string, p1 string) (string, string) {
		gT1[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M16(a[0].(string), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M16
			r0, r1 := f(a[0].(string), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 float64)", M17, func(p0 string, p1 float64) (float64, string) {
		gT1[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M17(a[0].(string), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M17
			r0, r1 := f(a[0].(string), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 interface{})", M18, func(p0 string, p1 interface{}) (interface{}, string) {
		gT1[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M18(a[0].(string), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M18
			r0, r1 := f(a[0].(string), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 five)", M19, func(p0 string, p1 five) (five, string) {
		gT1[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M19(a[0].(string), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M19
			r0, r1 := f(a[0].(string), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 mixed)", M20, func(p0 string, p1 mixed) (mixed, string) {
		gT1[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M20(a[0].(string), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M20
			r0, r1 := f(a[0].(string), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 string, p1 []byte)", M21, func(p0 string, p1 []byte) ([]byte, string) {
		gT1[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M21(a[0].(string), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M21
			r0, r1 := f(a[0].(string), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 int)", M22, func(p0 float64, p1 int) (int, float64) {
		gT2[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M22(a[0].(float64), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M22
			r0, r1 := f(a[0].(float64), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 string)", M23, func(p0 float64, p1 string) (string, float64) {
		gT2[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M23(a[0].(float64), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M23
			r0, r1 := f(a[0].(float64), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 float64)", M24, func(p0 float64, p1 float64) (float64, float64) {
		gT2[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M24(a[0].(float64), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M24
			r0, r1 := f(a[0].(float64), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 interface{})", M25, func(p0 float64, p1 interface{}) (interface{}, float64) {
		gT2[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M25(a[0].(float64), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M25
			r0, r1 := f(a[0].(float64), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 five)", M26, func(p0 float64, p1 five) (five, float64) {
		gT2[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M26(a[0].(float64), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M26
			r0, r1 := f(a[0].(float64), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 mixed)", M27, func(p0 float64, p1 mixed) (mixed, float64) {
		gT2[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M27(a[0].(float64), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M27
			r0, r1 := f(a[0].(float64), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 float64, p1 []byte)", M28, func(p0 float64, p1 []byte) ([]byte, float64) {
		gT2[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M28(a[0].(float64), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M28
			r0, r1 := f(a[0].(float64), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 int)", M29, func(p0 interface{}, p1 int) (int, interface{}) {
		gT3[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M29(a[0], a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M29
			r0, r1 := f(a[0], a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 string)", M30, func(p0 interface{}, p1 string) (string, interface{}) {
		gT3[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M30(a[0], a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M30
			r0, r1 := f(a[0], a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 float64)", M31, func(p0 interface{}, p1 float64) (float64, interface{}) {
		gT3[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M31(a[0], a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M31
			r0, r1 := f(a[0], a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 interface{})", M32, func(p0 interface{}, p1 interface{}) (interface{}, interface{}) {
		gT3[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M32(a[0], a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M32
			r0, r1 := f(a[0], a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 five)", M33, func(p0 interface{}, p1 five) (five, interface{}) {
		gT3[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M33(a[0], a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M33
			r0, r1 := f(a[0], a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 mixed)", M34, func(p0 interface{}, p1 mixed) (mixed, interface{}) {
		gT3[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M34(a[0], a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M34
			r0, r1 := f(a[0], a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 interface{}, p1 []byte)", M35, func(p0 interface{}, p1 []byte) ([]byte, interface{}) {
		gT3[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M35(a[0], a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M35
			r0, r1 := f(a[0], a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 int)", M36, func(p0 five, p1 int) (int, five) {
		gT4[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M36(a[0].(five), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M36
			r0, r1 := f(a[0].(five), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 string)", M37, func(p0 five, p1 string) (string, five) {
		gT4[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M37(a[0].(five), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M37
			r0, r1 := f(a[0].(five), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 float64)", M38, func(p0 five, p1 float64) (float64, five) {
		gT4[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M38(a[0].(five), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M38
			r0, r1 := f(a[0].(five), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 interface{})", M39, func(p0 five, p1 interface{}) (interface{}, five) {
		gT4[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M39(a[0].(five), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M39
			r0, r1 := f(a[0].(five), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 five)", M40, func(p0 five, p1 five) (five, five) {
		gT4[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M40(a[0].(five), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M40
			r0, r1 := f(a[0].(five), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 mixed)", M41, func(p0 five, p1 mixed) (mixed, five) {
		gT4[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M41(a[0].(five), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M41
			r0, r1 := f(a[0].(five), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 five, p1 []byte)", M42, func(p0 five, p1 []byte) ([]byte, five) {
		gT4[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M42(a[0].(five), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M42
			r0, r1 := f(a[0].(five), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 int)", M43, func(p0 mixed, p1 int) (int, mixed) {
		gT5[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M43(a[0].(mixed), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M43
			r0, r1 := f(a[0].(mixed), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 string)", M44, func(p0 mixed, p1 string) (string, mixed) {
		gT5[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M44(a[0].(mixed), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M44
			r0, r1 := f(a[0].(mixed), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 float64)", M45, func(p0 mixed, p1 float64) (float64, mixed) {
		gT5[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M45(a[0].(mixed), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M45
			r0, r1 := f(a[0].(mixed), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 interface{})", M46, func(p0 mixed, p1 interface{}) (interface{}, mixed) {
		gT5[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M46(a[0].(mixed), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M46
			r0, r1 := f(a[0].(mixed), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 five)", M47, func(p0 mixed, p1 five) (five, mixed) {
		gT5[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M47(a[0].(mixed), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M47
			r0, r1 := f(a[0].(mixed), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 mixed)", M48, func(p0 mixed, p1 mixed) (mixed, mixed) {
		gT5[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M48(a[0].(mixed), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M48
			r0, r1 := f(a[0].(mixed), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 mixed, p1 []byte)", M49, func(p0 mixed, p1 []byte) ([]byte, mixed) {
		gT5[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M49(a[0].(mixed), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M49
			r0, r1 := f(a[0].(mixed), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 int)", M50, func(p0 []byte, p1 int) (int, []byte) {
		gT6[0].H = p0
		gT0[1].H = p1
		return gT0[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M50(a[0].([]byte), a[1].(int))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M50
			r0, r1 := f(a[0].([]byte), a[1].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 string)", M51, func(p0 []byte, p1 string) (string, []byte) {
		gT6[0].H = p0
		gT1[1].H = p1
		return gT1[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M51(a[0].([]byte), a[1].(string))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M51
			r0, r1 := f(a[0].([]byte), a[1].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 float64)", M52, func(p0 []byte, p1 float64) (float64, []byte) {
		gT6[0].H = p0
		gT2[1].H = p1
		return gT2[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M52(a[0].([]byte), a[1].(float64))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M52
			r0, r1 := f(a[0].([]byte), a[1].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 interface{})", M53, func(p0 []byte, p1 interface{}) (interface{}, []byte) {
		gT6[0].H = p0
		gT3[1].H = p1
		return gT3[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M53(a[0].([]byte), a[1])
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M53
			r0, r1 := f(a[0].([]byte), a[1])
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 five)", M54, func(p0 []byte, p1 five) (five, []byte) {
		gT6[0].H = p0
		gT4[1].H = p1
		return gT4[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M54(a[0].([]byte), a[1].(five))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M54
			r0, r1 := f(a[0].([]byte), a[1].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 mixed)", M55, func(p0 []byte, p1 mixed) (mixed, []byte) {
		gT6[0].H = p0
		gT5[1].H = p1
		return gT5[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M55(a[0].([]byte), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M55
			r0, r1 := f(a[0].([]byte), a[1].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 []byte, p1 []byte)", M56, func(p0 []byte, p1 []byte) ([]byte, []byte) {
		gT6[0].H = p0
		gT6[1].H = p1
		return gT6[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := M56(a[0].([]byte), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M56
			r0, r1 := f(a[0].([]byte), a[1].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"func (p0 ...int)", M57, func(p0 ...int) int {
		gT7[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M57(a[0].([]int)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M57
			r0 := f(a[0].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...string)", M58, func(p0 ...string) int {
		gT8[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M58(a[0].([]string)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M58
			r0 := f(a[0].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...float64)", M59, func(p0 ...float64) int {
		gT9[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M59(a[0].([]float64)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M59
			r0 := f(a[0].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...interface{})", M60, func(p0 ...interface{}) int {
		gT10[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M60(a[0].([]interface{})...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M60
			r0 := f(a[0].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...five)", M61, func(p0 ...five) int {
		gT11[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M61(a[0].([]five)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M61
			r0 := f(a[0].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...mixed)", M62, func(p0 ...mixed) int {
		gT12[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M62(a[0].([]mixed)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M62
			r0 := f(a[0].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 ...[]byte)", M63, func(p0 ...[]byte) int {
		gT13[0].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M63(a[0].([][]byte)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M63
			r0 := f(a[0].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...int)", M64, func(p0 float64, p1 ...int) float64 {
		gT2[0].H = p0
		gT7[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M64(a[0].(float64), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M64
			r0 := f(a[0].(float64), a[1].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...string)", M65, func(p0 float64, p1 ...string) float64 {
		gT2[0].H = p0
		gT8[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M65(a[0].(float64), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M65
			r0 := f(a[0].(float64), a[1].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...float64)", M66, func(p0 float64, p1 ...float64) float64 {
		gT2[0].H = p0
		gT9[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M66(a[0].(float64), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M66
			r0 := f(a[0].(float64), a[1].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...interface{})", M67, func(p0 float64, p1 ...interface{}) float64 {
		gT2[0].H = p0
		gT10[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M67(a[0].(float64), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M67
			r0 := f(a[0].(float64), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...five)", M68, func(p0 float64, p1 ...five) float64 {
		gT2[0].H = p0
		gT11[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M68(a[0].(float64), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M68
			r0 := f(a[0].(float64), a[1].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...mixed)", M69, func(p0 float64, p1 ...mixed) float64 {
		gT2[0].H = p0
		gT12[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M69(a[0].(float64), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M69
			r0 := f(a[0].(float64), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 float64, p1 ...[]byte)", M70, func(p0 float64, p1 ...[]byte) float64 {
		gT2[0].H = p0
		gT13[1].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := M70(a[0].(float64), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M70
			r0 := f(a[0].(float64), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"func (p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int)", M71, func(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
		gT0[0].H = p0
		gT0[1].H = p1
		gT0[2].H = p2
		gT0[3].H = p3
		gT0[4].H = p4
		gT0[5].H = p5
		gT0[6].H = p6
		gT0[7].H = p7
		gT0[8].H = p8
		gT0[9].H = p9
		return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := M71(a[0].(int), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M71
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[0].(int), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
	}},
	{"func (p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64)", M72, func(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
		gT2[0].H = p0
		gT2[1].H = p1
		gT2[2].H = p2
		gT2[3].H = p3
		gT2[4].H = p4
		gT2[5].H = p5
		gT2[6].H = p6
		gT2[7].H = p7
		gT2[8].H = p8
		gT2[9].H = p9
		gT2[10].H = p10
		gT2[11].H = p11
		gT2[12].H = p12
		gT2[13].H = p13
		gT2[14].H = p14
		gT2[15].H = p15
		gT2[16].H = p16
		return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := M72(a[0].(float64), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M72
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[0].(float64), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
	}},
	{"func (p0 string, p1 five, p2 int, p3 mixed, p4 int)", M73, func(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
		gT1[0].H = p0
		gT4[1].H = p1
		gT0[2].H = p2
		gT5[3].H = p3
		gT0[4].H = p4
		return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := M73(a[0].(string), a[1].(five), a[2].(int), a[3].(mixed), a[4].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"function value", func(a []interface{}) []interface{} {
			f := M73
			r0, r1, r2, r3, r4 := f(a[0].(string), a[1].(five), a[2].(int), a[3].(mixed), a[4].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
	}},
	{"ptr (p0 int)", (*rp).M74, func(r *rp, p0 int) int {
		gT14[0].H = r
		gT0[1].H = p0
		return gT0[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M74(a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M74(a[0].(*rp), a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M74
			r0 := f(a[0].(*rp), a[1].(int))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M74
			r0 := f(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M74(p0 int) int }).M74(a[1].(int))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M74(a[1].(int))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 string)", (*rp).M75, func(r *rp, p0 string) string {
		gT14[0].H = r
		gT1[1].H = p0
		return gT1[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M75(a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M75(a[0].(*rp), a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M75
			r0 := f(a[0].(*rp), a[1].(string))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M75
			r0 := f(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M75(p0 string) string }).M75(a[1].(string))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M75(a[1].(string))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64)", (*rp).M76, func(r *rp, p0 float64) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		return gT2[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M76(a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M76(a[0].(*rp), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M76
			r0 := f(a[0].(*rp), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M76
			r0 := f(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M76(p0 float64) float64 }).M76(a[1].(float64))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M76(a[1].(float64))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 interface{})", (*rp).M77, func(r *rp, p0 interface{}) interface{} {
		gT14[0].H = r
		gT3[1].H = p0
		return gT3[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M77(a[1])
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M77(a[0].(*rp), a[1])
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M77
			r0 := f(a[0].(*rp), a[1])
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M77
			r0 := f(a[1])
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M77(p0 interface{}) interface{}
			}).M77(a[1])
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M77(a[1])
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 five)", (*rp).M78, func(r *rp, p0 five) five {
		gT14[0].H = r
		gT4[1].H = p0
		return gT4[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M78(a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M78(a[0].(*rp), a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M78
			r0 := f(a[0].(*rp), a[1].(five))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M78
			r0 := f(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M78(p0 five) five }).M78(a[1].(five))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M78(a[1].(five))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 mixed)", (*rp).M79, func(r *rp, p0 mixed) mixed {
		gT14[0].H = r
		gT5[1].H = p0
		return gT5[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M79(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M79(a[0].(*rp), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M79
			r0 := f(a[0].(*rp), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M79
			r0 := f(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M79(p0 mixed) mixed }).M79(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M79(a[1].(mixed))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 []byte)", (*rp).M80, func(r *rp, p0 []byte) []byte {
		gT14[0].H = r
		gT6[1].H = p0
		return gT6[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M80(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M80(a[0].(*rp), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M80
			r0 := f(a[0].(*rp), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M80
			r0 := f(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M80(p0 []byte) []byte }).M80(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M80(a[1].([]byte))
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 int, p1 int)", (*rp).M81, func(r *rp, p0 int, p1 int) (int, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M81(a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M81(a[0].(*rp), a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M81
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M81
			r0, r1 := f(a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M81(p0 int, p1 int) (int, int)
			}).M81(a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M81(a[1].(int), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 string)", (*rp).M82, func(r *rp, p0 int, p1 string) (string, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M82(a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M82(a[0].(*rp), a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M82
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M82
			r0, r1 := f(a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M82(p0 int, p1 string) (string, int)
			}).M82(a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M82(a[1].(int), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 float64)", (*rp).M83, func(r *rp, p0 int, p1 float64) (float64, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M83(a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M83(a[0].(*rp), a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M83
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M83
			r0, r1 := f(a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M83(p0 int, p1 float64) (float64, int)
			}).M83(a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M83(a[1].(int), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 interface{})", (*rp).M84, func(r *rp, p0 int, p1 interface{}) (interface{}, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M84(a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M84(a[0].(*rp), a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M84
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M84
			r0, r1 := f(a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M84(p0 int, p1 interface{}) (interface{}, int)
			}).M84(a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M84(a[1].(int), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 five)", (*rp).M85, func(r *rp, p0 int, p1 five) (five, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M85(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M85(a[0].(*rp), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M85
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M85
			r0, r1 := f(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M85(p0 int, p1 five) (five, int)
			}).M85(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M85(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 mixed)", (*rp).M86, func(r *rp, p0 int, p1 mixed) (mixed, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M86(a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M86(a[0].(*rp), a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M86
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M86
			r0, r1 := f(a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M86(p0 int, p1 mixed) (mixed, int)
			}).M86(a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M86(a[1].(int), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 int, p1 []byte)", (*rp).M87, func(r *rp, p0 int, p1 []byte) ([]byte, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M87(a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M87(a[0].(*rp), a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M87
			r0, r1 := f(a[0].(*rp), a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M87
			r0, r1 := f(a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M87(p0 int, p1 []byte) ([]byte, int)
			}).M87(a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M87(a[1].(int), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 int)", (*rp).M88, func(r *rp, p0 string, p1 int) (int, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M88(a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M88(a[0].(*rp), a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M88
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M88
			r0, r1 := f(a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M88(p0 string, p1 int) (int, string)
			}).M88(a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M88(a[1].(string), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 string)", (*rp).M89, func(r *rp, p0 string, p1 string) (string, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M89(a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M89(a[0].(*rp), a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M89
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M89
			r0, r1 := f(a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M89(p0 string, p1 string) (string, string)
			}).M89(a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M89(a[1].(string), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 float64)", (*rp).M90, func(r *rp, p0 string, p1 float64) (float64, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M90(a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M90(a[0].(*rp), a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M90
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M90
			r0, r1 := f(a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M90(p0 string, p1 float64) (float64, string)
			}).M90(a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M90(a[1].(string), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 interface{})", (*rp).M91, func(r *rp, p0 string, p1 interface{}) (interface{}, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M91(a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M91(a[0].(*rp), a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M91
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M91
			r0, r1 := f(a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M91(p0 string, p1 interface{}) (interface{}, string)
			}).M91(a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M91(a[1].(string), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 five)", (*rp).M92, func(r *rp, p0 string, p1 five) (five, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M92(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M92(a[0].(*rp), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M92
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M92
			r0, r1 := f(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M92(p0 string, p1 five) (five, string)
			}).M92(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M92(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 mixed)", (*rp).M93, func(r *rp, p0 string, p1 mixed) (mixed, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M93(a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M93(a[0].(*rp), a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M93
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M93
			r0, r1 := f(a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M93(p0 string, p1 mixed) (mixed, string)
			}).M93(a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M93(a[1].(string), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 string, p1 []byte)", (*rp).M94, func(r *rp, p0 string, p1 []byte) ([]byte, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M94(a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M94(a[0].(*rp), a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M94
			r0, r1 := f(a[0].(*rp), a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M94
			r0, r1 := f(a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M94(p0 string, p1 []byte) ([]byte, string)
			}).M94(a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M94(a[1].(string), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 int)", (*rp).M95, func(r *rp, p0 float64, p1 int) (int, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M95(a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M95(a[0].(*rp), a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M95
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M95
			r0, r1 := f(a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M95(p0 float64, p1 int) (int, float64)
			}).M95(a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M95(a[1].(float64), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 string)", (*rp).M96, func(r *rp, p0 float64, p1 string) (string, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M96(a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M96(a[0].(*rp), a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M96
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M96
			r0, r1 := f(a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M96(p0 float64, p1 string) (string, float64)
			}).M96(a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M96(a[1].(float64), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 float64)", (*rp).M97, func(r *rp, p0 float64, p1 float64) (float64, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M97(a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M97(a[0].(*rp), a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M97
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M97
			r0, r1 := f(a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M97(p0 float64, p1 float64) (float64, float64)
			}).M97(a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M97(a[1].(float64), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 interface{})", (*rp).M98, func(r *rp, p0 float64, p1 interface{}) (interface{}, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M98(a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M98(a[0].(*rp), a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M98
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M98
			r0, r1 := f(a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M98(p0 float64, p1 interface{}) (interface{}, float64)
			}).M98(a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M98(a[1].(float64), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 five)", (*rp).M99, func(r *rp, p0 float64, p1 five) (five, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M99(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M99(a[0].(*rp), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M99
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M99
			r0, r1 := f(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M99(p0 float64, p1 five) (five, float64)
			}).M99(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M99(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 mixed)", (*rp).M100, func(r *rp, p0 float64, p1 mixed) (mixed, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M100(a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M100(a[0].(*rp), a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M100
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M100
			r0, r1 := f(a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M100(p0 float64, p1 mixed) (mixed, float64)
			}).M100(a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M100(a[1].(float64), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 float64, p1 []byte)", (*rp).M101, func(r *rp, p0 float64, p1 []byte) ([]byte, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M101(a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M101(a[0].(*rp), a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M101
			r0, r1 := f(a[0].(*rp), a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M101
			r0, r1 := f(a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M101(p0 float64, p1 []byte) ([]byte, float64)
			}).M101(a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M101(a[1].(float64), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 int)", (*rp).M102, func(r *rp, p0 interface{}, p1 int) (int, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M102(a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M102(a[0].(*rp), a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M102
			r0, r1 := f(a[0].(*rp), a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M102
			r0, r1 := f(a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M102(p0 interface{}, p1 int) (int, interface{})
			}).M102(a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M102(a[1], a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 string)", (*rp).M103, func(r *rp, p0 interface{}, p1 string) (string, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M103(a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M103(a[0].(*rp), a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M103
			r0, r1 := f(a[0].(*rp), a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M103
			r0, r1 := f(a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M103(p0 interface{}, p1 string) (string, interface{})
			}).M103(a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M103(a[1], a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 float64)", (*rp).M104, func(r *rp, p0 interface{}, p1 float64) (float64, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M104(a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M104(a[0].(*rp), a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M104
			r0, r1 := f(a[0].(*rp), a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M104
			r0, r1 := f(a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M104(p0 interface{}, p1 float64) (float64, interface{})
			}).M104(a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M104(a[1], a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 interface{})", (*rp).M105, func(r *rp, p0 interface{}, p1 interface{}) (interface{}, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M105(a[1], a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M105(a[0].(*rp), a[1], a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M105
			r0, r1 := f(a[0].(*rp), a[1], a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M105
			r0, r1 := f(a[1], a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M105(p0 interface{}, p1 interface{}) (interface{}, interface{})
			}).M105(a[1], a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M105(a[1], a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 five)", (*rp).M106, func(r *rp, p0 interface{}, p1 five) (five, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M106(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M106(a[0].(*rp), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M106
			r0, r1 := f(a[0].(*rp), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M106
			r0, r1 := f(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M106(p0 interface{}, p1 five) (five, interface{})
			}).M106(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M106(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 mixed)", (*rp).M107, func(r *rp, p0 interface{}, p1 mixed) (mixed, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M107(a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M107(a[0].(*rp), a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M107
			r0, r1 := f(a[0].(*rp), a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M107
			r0, r1 := f(a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M107(p0 interface{}, p1 mixed) (mixed, interface{})
			}).M107(a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M107(a[1], a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 interface{}, p1 []byte)", (*rp).M108, func(r *rp, p0 interface{}, p1 []byte) ([]byte, interface{}) {
		gT14[0].H = r
		gT3[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M108(a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M108(a[0].(*rp), a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M108
			r0, r1 := f(a[0].(*rp), a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M108
			r0, r1 := f(a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M108(p0 interface{}, p1 []byte) ([]byte, interface{})
			}).M108(a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M108(a[1], a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 int)", (*rp).M109, func(r *rp, p0 five, p1 int) (int, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M109(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M109(a[0].(*rp), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M109
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M109
			r0, r1 := f(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M109(p0 five, p1 int) (int, five)
			}).M109(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M109(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 string)", (*rp).M110, func(r *rp, p0 five, p1 string) (string, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M110(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M110(a[0].(*rp), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M110
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M110
			r0, r1 := f(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M110(p0 five, p1 string) (string, five)
			}).M110(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M110(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 float64)", (*rp).M111, func(r *rp, p0 five, p1 float64) (float64, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M111(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M111(a[0].(*rp), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M111
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M111
			r0, r1 := f(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M111(p0 five, p1 float64) (float64, five)
			}).M111(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M111(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 interface{})", (*rp).M112, func(r *rp, p0 five, p1 interface{}) (interface{}, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M112(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M112(a[0].(*rp), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M112
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M112
			r0, r1 := f(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M112(p0 five, p1 interface{}) (interface{}, five)
			}).M112(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M112(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 five)", (*rp).M113, func(r *rp, p0 five, p1 five) (five, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M113(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M113(a[0].(*rp), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M113
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M113
			r0, r1 := f(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M113(p0 five, p1 five) (five, five)
			}).M113(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M113(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 mixed)", (*rp).M114, func(r *rp, p0 five, p1 mixed) (mixed, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M114(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M114(a[0].(*rp), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M114
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M114
			r0, r1 := f(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M114(p0 five, p1 mixed) (mixed, five)
			}).M114(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M114(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 five, p1 []byte)", (*rp).M115, func(r *rp, p0 five, p1 []byte) ([]byte, five) {
		gT14[0].H = r
		gT4[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M115(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M115(a[0].(*rp), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M115
			r0, r1 := f(a[0].(*rp), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M115
			r0, r1 := f(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M115(p0 five, p1 []byte) ([]byte, five)
			}).M115(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M115(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 int)", (*rp).M116, func(r *rp, p0 mixed, p1 int) (int, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M116(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M116(a[0].(*rp), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M116
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M116
			r0, r1 := f(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M116(p0 mixed, p1 int) (int, mixed)
			}).M116(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M116(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 string)", (*rp).M117, func(r *rp, p0 mixed, p1 string) (string, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M117(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M117(a[0].(*rp), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M117
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M117
			r0, r1 := f(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M117(p0 mixed, p1 string) (string, mixed)
			}).M117(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M117(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 float64)", (*rp).M118, func(r *rp, p0 mixed, p1 float64) (float64, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M118(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M118(a[0].(*rp), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M118
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M118
			r0, r1 := f(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M118(p0 mixed, p1 float64) (float64, mixed)
			}).M118(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M118(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 interface{})", (*rp).M119, func(r *rp, p0 mixed, p1 interface{}) (interface{}, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M119(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M119(a[0].(*rp), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M119
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M119
			r0, r1 := f(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M119(p0 mixed, p1 interface{}) (interface{}, mixed)
			}).M119(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M119(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 five)", (*rp).M120, func(r *rp, p0 mixed, p1 five) (five, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M120(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M120(a[0].(*rp), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M120
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M120
			r0, r1 := f(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M120(p0 mixed, p1 five) (five, mixed)
			}).M120(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M120(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 mixed)", (*rp).M121, func(r *rp, p0 mixed, p1 mixed) (mixed, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M121(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M121(a[0].(*rp), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M121
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M121
			r0, r1 := f(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M121(p0 mixed, p1 mixed) (mixed, mixed)
			}).M121(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M121(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 mixed, p1 []byte)", (*rp).M122, func(r *rp, p0 mixed, p1 []byte) ([]byte, mixed) {
		gT14[0].H = r
		gT5[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M122(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M122(a[0].(*rp), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M122
			r0, r1 := f(a[0].(*rp), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M122
			r0, r1 := f(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M122(p0 mixed, p1 []byte) ([]byte, mixed)
			}).M122(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M122(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 int)", (*rp).M123, func(r *rp, p0 []byte, p1 int) (int, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M123(a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M123(a[0].(*rp), a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M123
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M123
			r0, r1 := f(a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M123(p0 []byte, p1 int) (int, []byte)
			}).M123(a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M123(a[1].([]byte), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 string)", (*rp).M124, func(r *rp, p0 []byte, p1 string) (string, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M124(a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M124(a[0].(*rp), a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M124
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M124
			r0, r1 := f(a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M124(p0 []byte, p1 string) (string, []byte)
			}).M124(a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M124(a[1].([]byte), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 float64)", (*rp).M125, func(r *rp, p0 []byte, p1 float64) (float64, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M125(a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M125(a[0].(*rp), a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M125
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M125
			r0, r1 := f(a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M125(p0 []byte, p1 float64) (float64, []byte)
			}).M125(a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M125(a[1].([]byte), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 interface{})", (*rp).M126, func(r *rp, p0 []byte, p1 interface{}) (interface{}, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M126(a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M126(a[0].(*rp), a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M126
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M126
			r0, r1 := f(a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M126(p0 []byte, p1 interface{}) (interface{}, []byte)
			}).M126(a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M126(a[1].([]byte), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 five)", (*rp).M127, func(r *rp, p0 []byte, p1 five) (five, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M127(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M127(a[0].(*rp), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M127
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M127
			r0, r1 := f(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M127(p0 []byte, p1 five) (five, []byte)
			}).M127(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M127(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 mixed)", (*rp).M128, func(r *rp, p0 []byte, p1 mixed) (mixed, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M128(a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M128(a[0].(*rp), a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M128
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M128
			r0, r1 := f(a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M128(p0 []byte, p1 mixed) (mixed, []byte)
			}).M128(a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M128(a[1].([]byte), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 []byte, p1 []byte)", (*rp).M129, func(r *rp, p0 []byte, p1 []byte) ([]byte, []byte) {
		gT14[0].H = r
		gT6[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(*rp).M129(a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (*rp).M129(a[0].(*rp), a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M129
			r0, r1 := f(a[0].(*rp), a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M129
			r0, r1 := f(a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M129(p0 []byte, p1 []byte) ([]byte, []byte)
			}).M129(a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1 := e.M129(a[1].([]byte), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"ptr (p0 ...int)", (*rp).M130, func(r *rp, p0 ...int) int {
		gT14[0].H = r
		gT7[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M130(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M130(a[0].(*rp), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M130
			r0 := f(a[0].(*rp), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M130
			r0 := f(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M130(p0 ...int) int }).M130(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M130(a[1].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...string)", (*rp).M131, func(r *rp, p0 ...string) int {
		gT14[0].H = r
		gT8[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M131(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M131(a[0].(*rp), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M131
			r0 := f(a[0].(*rp), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M131
			r0 := f(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M131(p0 ...string) int }).M131(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M131(a[1].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...float64)", (*rp).M132, func(r *rp, p0 ...float64) int {
		gT14[0].H = r
		gT9[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M132(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M132(a[0].(*rp), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M132
			r0 := f(a[0].(*rp), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M132
			r0 := f(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M132(p0 ...float64) int }).M132(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M132(a[1].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...interface{})", (*rp).M133, func(r *rp, p0 ...interface{}) int {
		gT14[0].H = r
		gT10[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M133(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M133(a[0].(*rp), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M133
			r0 := f(a[0].(*rp), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M133
			r0 := f(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M133(p0 ...interface{}) int }).M133(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M133(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...five)", (*rp).M134, func(r *rp, p0 ...five) int {
		gT14[0].H = r
		gT11[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M134(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M134(a[0].(*rp), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M134
			r0 := f(a[0].(*rp), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M134
			r0 := f(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M134(p0 ...five) int }).M134(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M134(a[1].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...mixed)", (*rp).M135, func(r *rp, p0 ...mixed) int {
		gT14[0].H = r
		gT12[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M135(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M135(a[0].(*rp), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M135
			r0 := f(a[0].(*rp), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M135
			r0 := f(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M135(p0 ...mixed) int }).M135(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M135(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 ...[]byte)", (*rp).M136, func(r *rp, p0 ...[]byte) int {
		gT14[0].H = r
		gT13[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M136(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M136(a[0].(*rp), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M136
			r0 := f(a[0].(*rp), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M136
			r0 := f(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M136(p0 ...[]byte) int }).M136(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M136(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...int)", (*rp).M137, func(r *rp, p0 float64, p1 ...int) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT7[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M137(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M137(a[0].(*rp), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M137
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M137
			r0 := f(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M137(p0 float64, p1 ...int) float64
			}).M137(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M137(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...string)", (*rp).M138, func(r *rp, p0 float64, p1 ...string) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT8[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M138(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M138(a[0].(*rp), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M138
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M138
			r0 := f(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M138(p0 float64, p1 ...string) float64
			}).M138(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M138(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...float64)", (*rp).M139, func(r *rp, p0 float64, p1 ...float64) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT9[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M139(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M139(a[0].(*rp), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M139
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M139
			r0 := f(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M139(p0 float64, p1 ...float64) float64
			}).M139(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M139(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...interface{})", (*rp).M140, func(r *rp, p0 float64, p1 ...interface{}) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT10[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M140(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M140(a[0].(*rp), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M140
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M140
			r0 := f(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M140(p0 float64, p1 ...interface{}) float64
			}).M140(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M140(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...five)", (*rp).M141, func(r *rp, p0 float64, p1 ...five) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT11[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M141(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M141(a[0].(*rp), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M141
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M141
			r0 := f(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M141(p0 float64, p1 ...five) float64
			}).M141(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M141(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...mixed)", (*rp).M142, func(r *rp, p0 float64, p1 ...mixed) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT12[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M142(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M142(a[0].(*rp), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M142
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M142
			r0 := f(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M142(p0 float64, p1 ...mixed) float64
			}).M142(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M142(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 float64, p1 ...[]byte)", (*rp).M143, func(r *rp, p0 float64, p1 ...[]byte) float64 {
		gT14[0].H = r
		gT2[1].H = p0
		gT13[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(*rp).M143(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (*rp).M143(a[0].(*rp), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M143
			r0 := f(a[0].(*rp), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M143
			r0 := f(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M143(p0 float64, p1 ...[]byte) float64
			}).M143(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0 := e.M143(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"ptr (p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int)", (*rp).M144, func(r *rp, p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
		gT14[0].H = r
		gT0[1].H = p0
		gT0[2].H = p1
		gT0[3].H = p2
		gT0[4].H = p3
		gT0[5].H = p4
		gT0[6].H = p5
		gT0[7].H = p6
		gT0[8].H = p7
		gT0[9].H = p8
		gT0[10].H = p9
		return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := a[0].(*rp).M144(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := (*rp).M144(a[0].(*rp), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M144
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[0].(*rp), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M144
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.(interface {
				M144(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			}).M144(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := e.M144(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
	}},
	{"ptr (p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64)", (*rp).M145, func(r *rp, p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
		gT14[0].H = r
		gT2[1].H = p0
		gT2[2].H = p1
		gT2[3].H = p2
		gT2[4].H = p3
		gT2[5].H = p4
		gT2[6].H = p5
		gT2[7].H = p6
		gT2[8].H = p7
		gT2[9].H = p8
		gT2[10].H = p9
		gT2[11].H = p10
		gT2[12].H = p11
		gT2[13].H = p12
		gT2[14].H = p13
		gT2[15].H = p14
		gT2[16].H = p15
		gT2[17].H = p16
		return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := a[0].(*rp).M145(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := (*rp).M145(a[0].(*rp), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M145
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[0].(*rp), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M145
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.(interface {
				M145(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			}).M145(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := e.M145(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
	}},
	{"ptr (p0 string, p1 five, p2 int, p3 mixed, p4 int)", (*rp).M146, func(r *rp, p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
		gT14[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		gT0[3].H = p2
		gT5[4].H = p3
		gT0[5].H = p4
		return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := a[0].(*rp).M146(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := (*rp).M146(a[0].(*rp), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (*rp).M146
			r0, r1, r2, r3, r4 := f(a[0].(*rp), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(*rp).M146
			r0, r1, r2, r3, r4 := f(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4 := i.(interface {
				M146(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			}).M146(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				*rp
			}{1, a[0].(*rp)}
			r0, r1, r2, r3, r4 := e.M146(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
	}},
	{"small (p0 int)", (rs).M147, func(r rs, p0 int) int {
		gT15[0].H = r
		gT0[1].H = p0
		return gT0[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M147(a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M147(a[0].(rs), a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M147
			r0 := f(a[0].(rs), a[1].(int))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M147
			r0 := f(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M147(p0 int) int }).M147(a[1].(int))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M147(a[1].(int))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M147(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M147(p0 int) int } = &x
			r0 := i.M147(a[1].(int))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 string)", (rs).M148, func(r rs, p0 string) string {
		gT15[0].H = r
		gT1[1].H = p0
		return gT1[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M148(a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M148(a[0].(rs), a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M148
			r0 := f(a[0].(rs), a[1].(string))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M148
			r0 := f(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M148(p0 string) string }).M148(a[1].(string))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M148(a[1].(string))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M148(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M148(p0 string) string } = &x
			r0 := i.M148(a[1].(string))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64)", (rs).M149, func(r rs, p0 float64) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		return gT2[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M149(a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M149(a[0].(rs), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M149
			r0 := f(a[0].(rs), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M149
			r0 := f(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M149(p0 float64) float64 }).M149(a[1].(float64))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M149(a[1].(float64))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M149(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M149(p0 float64) float64 } = &x
			r0 := i.M149(a[1].(float64))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 interface{})", (rs).M150, func(r rs, p0 interface{}) interface{} {
		gT15[0].H = r
		gT3[1].H = p0
		return gT3[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M150(a[1])
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M150(a[0].(rs), a[1])
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M150
			r0 := f(a[0].(rs), a[1])
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M150
			r0 := f(a[1])
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M150(p0 interface{}) interface{}
			}).M150(a[1])
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M150(a[1])
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M150(a[1])
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M150(p0 interface{}) interface{}
			} = &x
			r0 := i.M150(a[1])
			return []interface{}{r0}
		}},
	}},
	{"small (p0 five)", (rs).M151, func(r rs, p0 five) five {
		gT15[0].H = r
		gT4[1].H = p0
		return gT4[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M151(a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M151(a[0].(rs), a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M151
			r0 := f(a[0].(rs), a[1].(five))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M151
			r0 := f(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M151(p0 five) five }).M151(a[1].(five))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M151(a[1].(five))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M151(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M151(p0 five) five } = &x
			r0 := i.M151(a[1].(five))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 mixed)", (rs).M152, func(r rs, p0 mixed) mixed {
		gT15[0].H = r
		gT5[1].H = p0
		return gT5[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M152(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M152(a[0].(rs), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M152
			r0 := f(a[0].(rs), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M152
			r0 := f(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M152(p0 mixed) mixed }).M152(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M152(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M152(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M152(p0 mixed) mixed } = &x
			r0 := i.M152(a[1].(mixed))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 []byte)", (rs).M153, func(r rs, p0 []byte) []byte {
		gT15[0].H = r
		gT6[1].H = p0
		return gT6[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M153(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M153(a[0].(rs), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M153
			r0 := f(a[0].(rs), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M153
			r0 := f(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M153(p0 []byte) []byte }).M153(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M153(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M153(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M153(p0 []byte) []byte } = &x
			r0 := i.M153(a[1].([]byte))
			return []interface{}{r0}
		}},
	}},
	{"small (p0 int, p1 five)", (rs).M154, func(r rs, p0 int, p1 five) (five, int) {
		gT15[0].H = r
		gT0[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M154(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M154(a[0].(rs), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M154
			r0, r1 := f(a[0].(rs), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M154
			r0, r1 := f(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M154(p0 int, p1 five) (five, int)
			}).M154(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M154(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M154(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M154(p0 int, p1 five) (five, int)
			} = &x
			r0, r1 := i.M154(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 string, p1 five)", (rs).M155, func(r rs, p0 string, p1 five) (five, string) {
		gT15[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M155(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M155(a[0].(rs), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M155
			r0, r1 := f(a[0].(rs), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M155
			r0, r1 := f(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M155(p0 string, p1 five) (five, string)
			}).M155(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M155(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M155(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M155(p0 string, p1 five) (five, string)
			} = &x
			r0, r1 := i.M155(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 float64, p1 five)", (rs).M156, func(r rs, p0 float64, p1 five) (five, float64) {
		gT15[0].H = r
		gT2[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M156(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M156(a[0].(rs), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M156
			r0, r1 := f(a[0].(rs), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M156
			r0, r1 := f(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M156(p0 float64, p1 five) (five, float64)
			}).M156(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M156(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M156(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M156(p0 float64, p1 five) (five, float64)
			} = &x
			r0, r1 := i.M156(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 interface{}, p1 five)", (rs).M157, func(r rs, p0 interface{}, p1 five) (five, interface{}) {
		gT15[0].H = r
		gT3[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M157(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M157(a[0].(rs), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M157
			r0, r1 := f(a[0].(rs), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M157
			r0, r1 := f(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M157(p0 interface{}, p1 five) (five, interface{})
			}).M157(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M157(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M157(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M157(p0 interface{}, p1 five) (five, interface{})
			} = &x
			r0, r1 := i.M157(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 int)", (rs).M158, func(r rs, p0 five, p1 int) (int, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M158(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M158(a[0].(rs), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M158
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M158
			r0, r1 := f(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M158(p0 five, p1 int) (int, five)
			}).M158(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M158(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M158(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M158(p0 five, p1 int) (int, five)
			} = &x
			r0, r1 := i.M158(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 string)", (rs).M159, func(r rs, p0 five, p1 string) (string, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M159(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M159(a[0].(rs), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M159
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M159
			r0, r1 := f(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M159(p0 five, p1 string) (string, five)
			}).M159(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M159(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M159(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M159(p0 five, p1 string) (string, five)
			} = &x
			r0, r1 := i.M159(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 float64)", (rs).M160, func(r rs, p0 five, p1 float64) (float64, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M160(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M160(a[0].(rs), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M160
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M160
			r0, r1 := f(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M160(p0 five, p1 float64) (float64, five)
			}).M160(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M160(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M160(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M160(p0 five, p1 float64) (float64, five)
			} = &x
			r0, r1 := i.M160(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 interface{})", (rs).M161, func(r rs, p0 five, p1 interface{}) (interface{}, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M161(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M161(a[0].(rs), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M161
			r0, r1 := f(a[0].(rs), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M161
			r0, r1 := f(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M161(p0 five, p1 interface{}) (interface{}, five)
			}).M161(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M161(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M161(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M161(p0 five, p1 interface{}) (interface{}, five)
			} = &x
			r0, r1 := i.M161(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 five)", (rs).M162, func(r rs, p0 five, p1 five) (five, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M162(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M162(a[0].(rs), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M162
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M162
			r0, r1 := f(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M162(p0 five, p1 five) (five, five)
			}).M162(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M162(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M162(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M162(p0 five, p1 five) (five, five)
			} = &x
			r0, r1 := i.M162(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 mixed)", (rs).M163, func(r rs, p0 five, p1 mixed) (mixed, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M163(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M163(a[0].(rs), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M163
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M163
			r0, r1 := f(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M163(p0 five, p1 mixed) (mixed, five)
			}).M163(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M163(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M163(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M163(p0 five, p1 mixed) (mixed, five)
			} = &x
			r0, r1 := i.M163(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 five, p1 []byte)", (rs).M164, func(r rs, p0 five, p1 []byte) ([]byte, five) {
		gT15[0].H = r
		gT4[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M164(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M164(a[0].(rs), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M164
			r0, r1 := f(a[0].(rs), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M164
			r0, r1 := f(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M164(p0 five, p1 []byte) ([]byte, five)
			}).M164(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M164(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M164(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M164(p0 five, p1 []byte) ([]byte, five)
			} = &x
			r0, r1 := i.M164(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 int)", (rs).M165, func(r rs, p0 mixed, p1 int) (int, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M165(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M165(a[0].(rs), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M165
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M165
			r0, r1 := f(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M165(p0 mixed, p1 int) (int, mixed)
			}).M165(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M165(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M165(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M165(p0 mixed, p1 int) (int, mixed)
			} = &x
			r0, r1 := i.M165(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 string)", (rs).M166, func(r rs, p0 mixed, p1 string) (string, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M166(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M166(a[0].(rs), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M166
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M166
			r0, r1 := f(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M166(p0 mixed, p1 string) (string, mixed)
			}).M166(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M166(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M166(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M166(p0 mixed, p1 string) (string, mixed)
			} = &x
			r0, r1 := i.M166(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 float64)", (rs).M167, func(r rs, p0 mixed, p1 float64) (float64, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M167(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M167(a[0].(rs), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M167
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M167
			r0, r1 := f(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M167(p0 mixed, p1 float64) (float64, mixed)
			}).M167(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M167(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M167(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M167(p0 mixed, p1 float64) (float64, mixed)
			} = &x
			r0, r1 := i.M167(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 interface{})", (rs).M168, func(r rs, p0 mixed, p1 interface{}) (interface{}, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M168(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M168(a[0].(rs), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M168
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M168
			r0, r1 := f(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M168(p0 mixed, p1 interface{}) (interface{}, mixed)
			}).M168(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M168(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M168(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M168(p0 mixed, p1 interface{}) (interface{}, mixed)
			} = &x
			r0, r1 := i.M168(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 five)", (rs).M169, func(r rs, p0 mixed, p1 five) (five, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M169(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M169(a[0].(rs), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M169
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M169
			r0, r1 := f(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M169(p0 mixed, p1 five) (five, mixed)
			}).M169(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M169(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M169(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M169(p0 mixed, p1 five) (five, mixed)
			} = &x
			r0, r1 := i.M169(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 mixed)", (rs).M170, func(r rs, p0 mixed, p1 mixed) (mixed, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M170(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M170(a[0].(rs), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M170
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M170
			r0, r1 := f(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M170(p0 mixed, p1 mixed) (mixed, mixed)
			}).M170(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M170(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M170(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M170(p0 mixed, p1 mixed) (mixed, mixed)
			} = &x
			r0, r1 := i.M170(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 mixed, p1 []byte)", (rs).M171, func(r rs, p0 mixed, p1 []byte) ([]byte, mixed) {
		gT15[0].H = r
		gT5[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M171(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M171(a[0].(rs), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M171
			r0, r1 := f(a[0].(rs), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M171
			r0, r1 := f(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M171(p0 mixed, p1 []byte) ([]byte, mixed)
			}).M171(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M171(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M171(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M171(p0 mixed, p1 []byte) ([]byte, mixed)
			} = &x
			r0, r1 := i.M171(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 []byte, p1 five)", (rs).M172, func(r rs, p0 []byte, p1 five) (five, []byte) {
		gT15[0].H = r
		gT6[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rs).M172(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rs).M172(a[0].(rs), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M172
			r0, r1 := f(a[0].(rs), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M172
			r0, r1 := f(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M172(p0 []byte, p1 five) (five, []byte)
			}).M172(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1 := e.M172(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1 := p.M172(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M172(p0 []byte, p1 five) (five, []byte)
			} = &x
			r0, r1 := i.M172(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"small (p0 ...int)", (rs).M173, func(r rs, p0 ...int) int {
		gT15[0].H = r
		gT7[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M173(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M173(a[0].(rs), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M173
			r0 := f(a[0].(rs), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M173
			r0 := f(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M173(p0 ...int) int }).M173(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M173(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M173(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M173(p0 ...int) int } = &x
			r0 := i.M173(a[1].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...string)", (rs).M174, func(r rs, p0 ...string) int {
		gT15[0].H = r
		gT8[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M174(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M174(a[0].(rs), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M174
			r0 := f(a[0].(rs), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M174
			r0 := f(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M174(p0 ...string) int }).M174(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M174(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M174(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M174(p0 ...string) int } = &x
			r0 := i.M174(a[1].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...float64)", (rs).M175, func(r rs, p0 ...float64) int {
		gT15[0].H = r
		gT9[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M175(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M175(a[0].(rs), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M175
			r0 := f(a[0].(rs), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M175
			r0 := f(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M175(p0 ...float64) int }).M175(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M175(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M175(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M175(p0 ...float64) int } = &x
			r0 := i.M175(a[1].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...interface{})", (rs).M176, func(r rs, p0 ...interface{}) int {
		gT15[0].H = r
		gT10[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M176(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M176(a[0].(rs), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M176
			r0 := f(a[0].(rs), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M176
			r0 := f(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M176(p0 ...interface{}) int }).M176(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M176(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M176(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M176(p0 ...interface{}) int } = &x
			r0 := i.M176(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...five)", (rs).M177, func(r rs, p0 ...five) int {
		gT15[0].H = r
		gT11[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M177(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M177(a[0].(rs), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M177
			r0 := f(a[0].(rs), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M177
			r0 := f(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M177(p0 ...five) int }).M177(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M177(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M177(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M177(p0 ...five) int } = &x
			r0 := i.M177(a[1].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...mixed)", (rs).M178, func(r rs, p0 ...mixed) int {
		gT15[0].H = r
		gT12[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M178(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M178(a[0].(rs), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M178
			r0 := f(a[0].(rs), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M178
			r0 := f(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M178(p0 ...mixed) int }).M178(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M178(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M178(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M178(p0 ...mixed) int } = &x
			r0 := i.M178(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 ...[]byte)", (rs).M179, func(r rs, p0 ...[]byte) int {
		gT15[0].H = r
		gT13[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M179(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M179(a[0].(rs), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M179
			r0 := f(a[0].(rs), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M179
			r0 := f(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M179(p0 ...[]byte) int }).M179(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M179(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M179(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface{ M179(p0 ...[]byte) int } = &x
			r0 := i.M179(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...int)", (rs).M180, func(r rs, p0 float64, p1 ...int) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT7[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M180(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M180(a[0].(rs), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M180
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M180
			r0 := f(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M180(p0 float64, p1 ...int) float64
			}).M180(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M180(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M180(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M180(p0 float64, p1 ...int) float64
			} = &x
			r0 := i.M180(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...string)", (rs).M181, func(r rs, p0 float64, p1 ...string) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT8[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M181(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M181(a[0].(rs), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M181
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M181
			r0 := f(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M181(p0 float64, p1 ...string) float64
			}).M181(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M181(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M181(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M181(p0 float64, p1 ...string) float64
			} = &x
			r0 := i.M181(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...float64)", (rs).M182, func(r rs, p0 float64, p1 ...float64) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT9[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M182(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M182(a[0].(rs), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M182
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M182
			r0 := f(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M182(p0 float64, p1 ...float64) float64
			}).M182(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M182(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M182(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M182(p0 float64, p1 ...float64) float64
			} = &x
			r0 := i.M182(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...interface{})", (rs).M183, func(r rs, p0 float64, p1 ...interface{}) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT10[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M183(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M183(a[0].(rs), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M183
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M183
			r0 := f(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M183(p0 float64, p1 ...interface{}) float64
			}).M183(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M183(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M183(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M183(p0 float64, p1 ...interface{}) float64
			} = &x
			r0 := i.M183(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...five)", (rs).M184, func(r rs, p0 float64, p1 ...five) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT11[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M184(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M184(a[0].(rs), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M184
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M184
			r0 := f(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M184(p0 float64, p1 ...five) float64
			}).M184(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M184(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M184(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M184(p0 float64, p1 ...five) float64
			} = &x
			r0 := i.M184(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...mixed)", (rs).M185, func(r rs, p0 float64, p1 ...mixed) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT12[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M185(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M185(a[0].(rs), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M185
			r0 := f(a[0].(rs), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M185
			r0 := f(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M185(p0 float64, p1 ...mixed) float64
			}).M185(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M185(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M185(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M185(p0 float64, p1 ...mixed) float64
			} = &x
			r0 := i.M185(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 float64, p1 ...[]byte)", (rs).M186, func(r rs, p0 float64, p1 ...[]byte) float64 {
		gT15[0].H = r
		gT2[1].H = p0
		gT13[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rs).M186(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rs).M186(a[0].(rs), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M186
			r0 := f(a[0].(rs), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M186
			r0 := f(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M186(p0 float64, p1 ...[]byte) float64
			}).M186(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0 := e.M186(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0 := p.M186(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M186(p0 float64, p1 ...[]byte) float64
			} = &x
			r0 := i.M186(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"small (p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int)", (rs).M187, func(r rs, p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
		gT15[0].H = r
		gT0[1].H = p0
		gT0[2].H = p1
		gT0[3].H = p2
		gT0[4].H = p3
		gT0[5].H = p4
		gT0[6].H = p5
		gT0[7].H = p6
		gT0[8].H = p7
		gT0[9].H = p8
		gT0[10].H = p9
		return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := a[0].(rs).M187(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := (rs).M187(a[0].(rs), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M187
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[0].(rs), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M187
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.(interface {
				M187(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			}).M187(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := e.M187(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := p.M187(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M187(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.M187(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
	}},
	{"small (p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64)", (rs).M188, func(r rs, p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
		gT15[0].H = r
		gT2[1].H = p0
		gT2[2].H = p1
		gT2[3].H = p2
		gT2[4].H = p3
		gT2[5].H = p4
		gT2[6].H = p5
		gT2[7].H = p6
		gT2[8].H = p7
		gT2[9].H = p8
		gT2[10].H = p9
		gT2[11].H = p10
		gT2[12].H = p11
		gT2[13].H = p12
		gT2[14].H = p13
		gT2[15].H = p14
		gT2[16].H = p15
		gT2[17].H = p16
		return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := a[0].(rs).M188(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := (rs).M188(a[0].(rs), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M188
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[0].(rs), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M188
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.(interface {
				M188(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			}).M188(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := e.M188(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := p.M188(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M188(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.M188(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
	}},
	{"small (p0 string, p1 five, p2 int, p3 mixed, p4 int)", (rs).M189, func(r rs, p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
		gT15[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		gT0[3].H = p2
		gT5[4].H = p3
		gT0[5].H = p4
		return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := a[0].(rs).M189(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := (rs).M189(a[0].(rs), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rs).M189
			r0, r1, r2, r3, r4 := f(a[0].(rs), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rs).M189
			r0, r1, r2, r3, r4 := f(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4 := i.(interface {
				M189(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			}).M189(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rs
			}{1, a[0].(rs)}
			r0, r1, r2, r3, r4 := e.M189(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			p := &x
			r0, r1, r2, r3, r4 := p.M189(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rs)
			var i interface {
				M189(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			} = &x
			r0, r1, r2, r3, r4 := i.M189(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
	}},
	{"big (p0 int)", (rb).M190, func(r rb, p0 int) int {
		gT16[0].H = r
		gT0[1].H = p0
		return gT0[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M190(a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M190(a[0].(rb), a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M190
			r0 := f(a[0].(rb), a[1].(int))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M190
			r0 := f(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M190(p0 int) int }).M190(a[1].(int))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M190(a[1].(int))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M190(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M190(p0 int) int } = &x
			r0 := i.M190(a[1].(int))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 string)", (rb).M191, func(r rb, p0 string) string {
		gT16[0].H = r
		gT1[1].H = p0
		return gT1[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M191(a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M191(a[0].(rb), a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M191
			r0 := f(a[0].(rb), a[1].(string))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M191
			r0 := f(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M191(p0 string) string }).M191(a[1].(string))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M191(a[1].(string))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M191(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M191(p0 string) string } = &x
			r0 := i.M191(a[1].(string))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64)", (rb).M192, func(r rb, p0 float64) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		return gT2[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M192(a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M192(a[0].(rb), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M192
			r0 := f(a[0].(rb), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M192
			r0 := f(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M192(p0 float64) float64 }).M192(a[1].(float64))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M192(a[1].(float64))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M192(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M192(p0 float64) float64 } = &x
			r0 := i.M192(a[1].(float64))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 interface{})", (rb).M193, func(r rb, p0 interface{}) interface{} {
		gT16[0].H = r
		gT3[1].H = p0
		return gT3[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M193(a[1])
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M193(a[0].(rb), a[1])
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M193
			r0 := f(a[0].(rb), a[1])
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M193
			r0 := f(a[1])
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M193(p0 interface{}) interface{}
			}).M193(a[1])
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M193(a[1])
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M193(a[1])
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M193(p0 interface{}) interface{}
			} = &x
			r0 := i.M193(a[1])
			return []interface{}{r0}
		}},
	}},
	{"big (p0 five)", (rb).M194, func(r rb, p0 five) five {
		gT16[0].H = r
		gT4[1].H = p0
		return gT4[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M194(a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M194(a[0].(rb), a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M194
			r0 := f(a[0].(rb), a[1].(five))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M194
			r0 := f(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M194(p0 five) five }).M194(a[1].(five))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M194(a[1].(five))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M194(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M194(p0 five) five } = &x
			r0 := i.M194(a[1].(five))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 mixed)", (rb).M195, func(r rb, p0 mixed) mixed {
		gT16[0].H = r
		gT5[1].H = p0
		return gT5[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M195(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M195(a[0].(rb), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M195
			r0 := f(a[0].(rb), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M195
			r0 := f(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M195(p0 mixed) mixed }).M195(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M195(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M195(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M195(p0 mixed) mixed } = &x
			r0 := i.M195(a[1].(mixed))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 []byte)", (rb).M196, func(r rb, p0 []byte) []byte {
		gT16[0].H = r
		gT6[1].H = p0
		return gT6[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M196(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M196(a[0].(rb), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M196
			r0 := f(a[0].(rb), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M196
			r0 := f(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M196(p0 []byte) []byte }).M196(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M196(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M196(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M196(p0 []byte) []byte } = &x
			r0 := i.M196(a[1].([]byte))
			return []interface{}{r0}
		}},
	}},
	{"big (p0 int, p1 five)", (rb).M197, func(r rb, p0 int, p1 five) (five, int) {
		gT16[0].H = r
		gT0[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M197(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M197(a[0].(rb), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M197
			r0, r1 := f(a[0].(rb), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M197
			r0, r1 := f(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M197(p0 int, p1 five) (five, int)
			}).M197(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M197(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M197(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M197(p0 int, p1 five) (five, int)
			} = &x
			r0, r1 := i.M197(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 string, p1 five)", (rb).M198, func(r rb, p0 string, p1 five) (five, string) {
		gT16[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M198(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M198(a[0].(rb), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M198
			r0, r1 := f(a[0].(rb), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M198
			r0, r1 := f(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M198(p0 string, p1 five) (five, string)
			}).M198(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M198(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M198(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M198(p0 string, p1 five) (five, string)
			} = &x
			r0, r1 := i.M198(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 float64, p1 five)", (rb).M199, func(r rb, p0 float64, p1 five) (five, float64) {
		gT16[0].H = r
		gT2[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M199(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M199(a[0].(rb), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M199
			r0, r1 := f(a[0].(rb), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M199
			r0, r1 := f(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M199(p0 float64, p1 five) (five, float64)
			}).M199(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M199(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M199(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M199(p0 float64, p1 five) (five, float64)
			} = &x
			r0, r1 := i.M199(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 interface{}, p1 five)", (rb).M200, func(r rb, p0 interface{}, p1 five) (five, interface{}) {
		gT16[0].H = r
		gT3[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M200(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M200(a[0].(rb), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M200
			r0, r1 := f(a[0].(rb), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M200
			r0, r1 := f(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M200(p0 interface{}, p1 five) (five, interface{})
			}).M200(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M200(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M200(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M200(p0 interface{}, p1 five) (five, interface{})
			} = &x
			r0, r1 := i.M200(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 int)", (rb).M201, func(r rb, p0 five, p1 int) (int, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M201(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M201(a[0].(rb), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M201
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M201
			r0, r1 := f(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M201(p0 five, p1 int) (int, five)
			}).M201(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M201(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M201(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M201(p0 five, p1 int) (int, five)
			} = &x
			r0, r1 := i.M201(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 string)", (rb).M202, func(r rb, p0 five, p1 string) (string, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M202(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M202(a[0].(rb), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M202
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M202
			r0, r1 := f(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M202(p0 five, p1 string) (string, five)
			}).M202(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M202(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M202(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M202(p0 five, p1 string) (string, five)
			} = &x
			r0, r1 := i.M202(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 float64)", (rb).M203, func(r rb, p0 five, p1 float64) (float64, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M203(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M203(a[0].(rb), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M203
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M203
			r0, r1 := f(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M203(p0 five, p1 float64) (float64, five)
			}).M203(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M203(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M203(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M203(p0 five, p1 float64) (float64, five)
			} = &x
			r0, r1 := i.M203(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 interface{})", (rb).M204, func(r rb, p0 five, p1 interface{}) (interface{}, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M204(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M204(a[0].(rb), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M204
			r0, r1 := f(a[0].(rb), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M204
			r0, r1 := f(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M204(p0 five, p1 interface{}) (interface{}, five)
			}).M204(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M204(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M204(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M204(p0 five, p1 interface{}) (interface{}, five)
			} = &x
			r0, r1 := i.M204(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 five)", (rb).M205, func(r rb, p0 five, p1 five) (five, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M205(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M205(a[0].(rb), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M205
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M205
			r0, r1 := f(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M205(p0 five, p1 five) (five, five)
			}).M205(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M205(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M205(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M205(p0 five, p1 five) (five, five)
			} = &x
			r0, r1 := i.M205(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 mixed)", (rb).M206, func(r rb, p0 five, p1 mixed) (mixed, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M206(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M206(a[0].(rb), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M206
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M206
			r0, r1 := f(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M206(p0 five, p1 mixed) (mixed, five)
			}).M206(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M206(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M206(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M206(p0 five, p1 mixed) (mixed, five)
			} = &x
			r0, r1 := i.M206(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 five, p1 []byte)", (rb).M207, func(r rb, p0 five, p1 []byte) ([]byte, five) {
		gT16[0].H = r
		gT4[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M207(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M207(a[0].(rb), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M207
			r0, r1 := f(a[0].(rb), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M207
			r0, r1 := f(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M207(p0 five, p1 []byte) ([]byte, five)
			}).M207(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M207(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M207(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M207(p0 five, p1 []byte) ([]byte, five)
			} = &x
			r0, r1 := i.M207(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 int)", (rb).M208, func(r rb, p0 mixed, p1 int) (int, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M208(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M208(a[0].(rb), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M208
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M208
			r0, r1 := f(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M208(p0 mixed, p1 int) (int, mixed)
			}).M208(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M208(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M208(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M208(p0 mixed, p1 int) (int, mixed)
			} = &x
			r0, r1 := i.M208(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 string)", (rb).M209, func(r rb, p0 mixed, p1 string) (string, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M209(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M209(a[0].(rb), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M209
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M209
			r0, r1 := f(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M209(p0 mixed, p1 string) (string, mixed)
			}).M209(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M209(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M209(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M209(p0 mixed, p1 string) (string, mixed)
			} = &x
			r0, r1 := i.M209(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 float64)", (rb).M210, func(r rb, p0 mixed, p1 float64) (float64, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M210(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M210(a[0].(rb), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M210
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M210
			r0, r1 := f(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M210(p0 mixed, p1 float64) (float64, mixed)
			}).M210(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M210(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M210(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M210(p0 mixed, p1 float64) (float64, mixed)
			} = &x
			r0, r1 := i.M210(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 interface{})", (rb).M211, func(r rb, p0 mixed, p1 interface{}) (interface{}, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M211(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M211(a[0].(rb), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M211
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M211
			r0, r1 := f(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M211(p0 mixed, p1 interface{}) (interface{}, mixed)
			}).M211(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M211(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M211(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M211(p0 mixed, p1 interface{}) (interface{}, mixed)
			} = &x
			r0, r1 := i.M211(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 five)", (rb).M212, func(r rb, p0 mixed, p1 five) (five, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M212(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M212(a[0].(rb), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M212
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M212
			r0, r1 := f(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M212(p0 mixed, p1 five) (five, mixed)
			}).M212(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M212(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M212(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M212(p0 mixed, p1 five) (five, mixed)
			} = &x
			r0, r1 := i.M212(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 mixed)", (rb).M213, func(r rb, p0 mixed, p1 mixed) (mixed, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M213(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M213(a[0].(rb), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M213
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M213
			r0, r1 := f(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M213(p0 mixed, p1 mixed) (mixed, mixed)
			}).M213(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M213(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M213(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M213(p0 mixed, p1 mixed) (mixed, mixed)
			} = &x
			r0, r1 := i.M213(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 mixed, p1 []byte)", (rb).M214, func(r rb, p0 mixed, p1 []byte) ([]byte, mixed) {
		gT16[0].H = r
		gT5[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M214(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M214(a[0].(rb), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M214
			r0, r1 := f(a[0].(rb), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M214
			r0, r1 := f(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M214(p0 mixed, p1 []byte) ([]byte, mixed)
			}).M214(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M214(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M214(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M214(p0 mixed, p1 []byte) ([]byte, mixed)
			} = &x
			r0, r1 := i.M214(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 []byte, p1 five)", (rb).M215, func(r rb, p0 []byte, p1 five) (five, []byte) {
		gT16[0].H = r
		gT6[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rb).M215(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rb).M215(a[0].(rb), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M215
			r0, r1 := f(a[0].(rb), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M215
			r0, r1 := f(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M215(p0 []byte, p1 five) (five, []byte)
			}).M215(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1 := e.M215(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1 := p.M215(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M215(p0 []byte, p1 five) (five, []byte)
			} = &x
			r0, r1 := i.M215(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"big (p0 ...int)", (rb).M216, func(r rb, p0 ...int) int {
		gT16[0].H = r
		gT7[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M216(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M216(a[0].(rb), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M216
			r0 := f(a[0].(rb), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M216
			r0 := f(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M216(p0 ...int) int }).M216(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M216(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M216(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M216(p0 ...int) int } = &x
			r0 := i.M216(a[1].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...string)", (rb).M217, func(r rb, p0 ...string) int {
		gT16[0].H = r
		gT8[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M217(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M217(a[0].(rb), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M217
			r0 := f(a[0].(rb), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M217
			r0 := f(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M217(p0 ...string) int }).M217(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M217(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M217(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M217(p0 ...string) int } = &x
			r0 := i.M217(a[1].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...float64)", (rb).M218, func(r rb, p0 ...float64) int {
		gT16[0].H = r
		gT9[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M218(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M218(a[0].(rb), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M218
			r0 := f(a[0].(rb), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M218
			r0 := f(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M218(p0 ...float64) int }).M218(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M218(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M218(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M218(p0 ...float64) int } = &x
			r0 := i.M218(a[1].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...interface{})", (rb).M219, func(r rb, p0 ...interface{}) int {
		gT16[0].H = r
		gT10[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M219(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M219(a[0].(rb), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M219
			r0 := f(a[0].(rb), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M219
			r0 := f(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M219(p0 ...interface{}) int }).M219(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M219(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M219(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M219(p0 ...interface{}) int } = &x
			r0 := i.M219(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...five)", (rb).M220, func(r rb, p0 ...five) int {
		gT16[0].H = r
		gT11[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M220(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M220(a[0].(rb), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M220
			r0 := f(a[0].(rb), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M220
			r0 := f(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M220(p0 ...five) int }).M220(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M220(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M220(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M220(p0 ...five) int } = &x
			r0 := i.M220(a[1].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...mixed)", (rb).M221, func(r rb, p0 ...mixed) int {
		gT16[0].H = r
		gT12[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M221(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M221(a[0].(rb), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M221
			r0 := f(a[0].(rb), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M221
			r0 := f(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M221(p0 ...mixed) int }).M221(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M221(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M221(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M221(p0 ...mixed) int } = &x
			r0 := i.M221(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 ...[]byte)", (rb).M222, func(r rb, p0 ...[]byte) int {
		gT16[0].H = r
		gT13[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M222(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M222(a[0].(rb), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M222
			r0 := f(a[0].(rb), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M222
			r0 := f(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M222(p0 ...[]byte) int }).M222(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M222(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M222(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface{ M222(p0 ...[]byte) int } = &x
			r0 := i.M222(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...int)", (rb).M223, func(r rb, p0 float64, p1 ...int) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT7[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M223(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M223(a[0].(rb), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M223
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M223
			r0 := f(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M223(p0 float64, p1 ...int) float64
			}).M223(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M223(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M223(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M223(p0 float64, p1 ...int) float64
			} = &x
			r0 := i.M223(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...string)", (rb).M224, func(r rb, p0 float64, p1 ...string) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT8[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M224(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M224(a[0].(rb), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M224
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M224
			r0 := f(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M224(p0 float64, p1 ...string) float64
			}).M224(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M224(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M224(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M224(p0 float64, p1 ...string) float64
			} = &x
			r0 := i.M224(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...float64)", (rb).M225, func(r rb, p0 float64, p1 ...float64) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT9[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M225(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M225(a[0].(rb), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M225
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M225
			r0 := f(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M225(p0 float64, p1 ...float64) float64
			}).M225(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M225(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M225(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M225(p0 float64, p1 ...float64) float64
			} = &x
			r0 := i.M225(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...interface{})", (rb).M226, func(r rb, p0 float64, p1 ...interface{}) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT10[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M226(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M226(a[0].(rb), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M226
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M226
			r0 := f(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M226(p0 float64, p1 ...interface{}) float64
			}).M226(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M226(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M226(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M226(p0 float64, p1 ...interface{}) float64
			} = &x
			r0 := i.M226(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...five)", (rb).M227, func(r rb, p0 float64, p1 ...five) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT11[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M227(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M227(a[0].(rb), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M227
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M227
			r0 := f(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M227(p0 float64, p1 ...five) float64
			}).M227(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M227(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M227(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M227(p0 float64, p1 ...five) float64
			} = &x
			r0 := i.M227(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...mixed)", (rb).M228, func(r rb, p0 float64, p1 ...mixed) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT12[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M228(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M228(a[0].(rb), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M228
			r0 := f(a[0].(rb), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M228
			r0 := f(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M228(p0 float64, p1 ...mixed) float64
			}).M228(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M228(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M228(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M228(p0 float64, p1 ...mixed) float64
			} = &x
			r0 := i.M228(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 float64, p1 ...[]byte)", (rb).M229, func(r rb, p0 float64, p1 ...[]byte) float64 {
		gT16[0].H = r
		gT2[1].H = p0
		gT13[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rb).M229(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rb).M229(a[0].(rb), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M229
			r0 := f(a[0].(rb), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M229
			r0 := f(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M229(p0 float64, p1 ...[]byte) float64
			}).M229(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0 := e.M229(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0 := p.M229(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M229(p0 float64, p1 ...[]byte) float64
			} = &x
			r0 := i.M229(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"big (p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int)", (rb).M230, func(r rb, p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
		gT16[0].H = r
		gT0[1].H = p0
		gT0[2].H = p1
		gT0[3].H = p2
		gT0[4].H = p3
		gT0[5].H = p4
		gT0[6].H = p5
		gT0[7].H = p6
		gT0[8].H = p7
		gT0[9].H = p8
		gT0[10].H = p9
		return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := a[0].(rb).M230(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := (rb).M230(a[0].(rb), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M230
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[0].(rb), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M230
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.(interface {
				M230(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			}).M230(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := e.M230(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := p.M230(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M230(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.M230(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
	}},
	{"big (p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64)", (rb).M231, func(r rb, p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
		gT16[0].H = r
		gT2[1].H = p0
		gT2[2].H = p1
		gT2[3].H = p2
		gT2[4].H = p3
		gT2[5].H = p4
		gT2[6].H = p5
		gT2[7].H = p6
		gT2[8].H = p7
		gT2[9].H = p8
		gT2[10].H = p9
		gT2[11].H = p10
		gT2[12].H = p11
		gT2[13].H = p12
		gT2[14].H = p13
		gT2[15].H = p14
		gT2[16].H = p15
		gT2[17].H = p16
		return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := a[0].(rb).M231(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := (rb).M231(a[0].(rb), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M231
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[0].(rb), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M231
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.(interface {
				M231(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			}).M231(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := e.M231(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := p.M231(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M231(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.M231(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
	}},
	{"big (p0 string, p1 five, p2 int, p3 mixed, p4 int)", (rb).M232, func(r rb, p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
		gT16[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		gT0[3].H = p2
		gT5[4].H = p3
		gT0[5].H = p4
		return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := a[0].(rb).M232(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := (rb).M232(a[0].(rb), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rb).M232
			r0, r1, r2, r3, r4 := f(a[0].(rb), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rb).M232
			r0, r1, r2, r3, r4 := f(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4 := i.(interface {
				M232(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			}).M232(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rb
			}{1, a[0].(rb)}
			r0, r1, r2, r3, r4 := e.M232(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			p := &x
			r0, r1, r2, r3, r4 := p.M232(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rb)
			var i interface {
				M232(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			} = &x
			r0, r1, r2, r3, r4 := i.M232(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
	}},
	{"float (p0 int)", (rf).M233, func(r rf, p0 int) int {
		gT17[0].H = r
		gT0[1].H = p0
		return gT0[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M233(a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M233(a[0].(rf), a[1].(int))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M233
			r0 := f(a[0].(rf), a[1].(int))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M233
			r0 := f(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M233(p0 int) int }).M233(a[1].(int))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M233(a[1].(int))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M233(a[1].(int))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M233(p0 int) int } = &x
			r0 := i.M233(a[1].(int))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 string)", (rf).M234, func(r rf, p0 string) string {
		gT17[0].H = r
		gT1[1].H = p0
		return gT1[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M234(a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M234(a[0].(rf), a[1].(string))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M234
			r0 := f(a[0].(rf), a[1].(string))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M234
			r0 := f(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M234(p0 string) string }).M234(a[1].(string))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M234(a[1].(string))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M234(a[1].(string))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M234(p0 string) string } = &x
			r0 := i.M234(a[1].(string))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64)", (rf).M235, func(r rf, p0 float64) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		return gT2[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M235(a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M235(a[0].(rf), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M235
			r0 := f(a[0].(rf), a[1].(float64))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M235
			r0 := f(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M235(p0 float64) float64 }).M235(a[1].(float64))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M235(a[1].(float64))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M235(a[1].(float64))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M235(p0 float64) float64 } = &x
			r0 := i.M235(a[1].(float64))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 interface{})", (rf).M236, func(r rf, p0 interface{}) interface{} {
		gT17[0].H = r
		gT3[1].H = p0
		return gT3[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M236(a[1])
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M236(a[0].(rf), a[1])
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M236
			r0 := f(a[0].(rf), a[1])
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M236
			r0 := f(a[1])
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M236(p0 interface{}) interface{}
			}).M236(a[1])
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M236(a[1])
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M236(a[1])
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M236(p0 interface{}) interface{}
			} = &x
			r0 := i.M236(a[1])
			return []interface{}{r0}
		}},
	}},
	{"float (p0 five)", (rf).M237, func(r rf, p0 five) five {
		gT17[0].H = r
		gT4[1].H = p0
		return gT4[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M237(a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M237(a[0].(rf), a[1].(five))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M237
			r0 := f(a[0].(rf), a[1].(five))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M237
			r0 := f(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M237(p0 five) five }).M237(a[1].(five))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M237(a[1].(five))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M237(a[1].(five))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M237(p0 five) five } = &x
			r0 := i.M237(a[1].(five))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 mixed)", (rf).M238, func(r rf, p0 mixed) mixed {
		gT17[0].H = r
		gT5[1].H = p0
		return gT5[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M238(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M238(a[0].(rf), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M238
			r0 := f(a[0].(rf), a[1].(mixed))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M238
			r0 := f(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M238(p0 mixed) mixed }).M238(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M238(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M238(a[1].(mixed))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M238(p0 mixed) mixed } = &x
			r0 := i.M238(a[1].(mixed))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 []byte)", (rf).M239, func(r rf, p0 []byte) []byte {
		gT17[0].H = r
		gT6[1].H = p0
		return gT6[0].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M239(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M239(a[0].(rf), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M239
			r0 := f(a[0].(rf), a[1].([]byte))
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M239
			r0 := f(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M239(p0 []byte) []byte }).M239(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M239(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M239(a[1].([]byte))
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M239(p0 []byte) []byte } = &x
			r0 := i.M239(a[1].([]byte))
			return []interface{}{r0}
		}},
	}},
	{"float (p0 int, p1 five)", (rf).M240, func(r rf, p0 int, p1 five) (five, int) {
		gT17[0].H = r
		gT0[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT0[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M240(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M240(a[0].(rf), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M240
			r0, r1 := f(a[0].(rf), a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M240
			r0, r1 := f(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M240(p0 int, p1 five) (five, int)
			}).M240(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M240(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M240(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M240(p0 int, p1 five) (five, int)
			} = &x
			r0, r1 := i.M240(a[1].(int), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 string, p1 five)", (rf).M241, func(r rf, p0 string, p1 five) (five, string) {
		gT17[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT1[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M241(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M241(a[0].(rf), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M241
			r0, r1 := f(a[0].(rf), a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M241
			r0, r1 := f(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M241(p0 string, p1 five) (five, string)
			}).M241(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M241(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M241(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M241(p0 string, p1 five) (five, string)
			} = &x
			r0, r1 := i.M241(a[1].(string), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 float64, p1 five)", (rf).M242, func(r rf, p0 float64, p1 five) (five, float64) {
		gT17[0].H = r
		gT2[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT2[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M242(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M242(a[0].(rf), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M242
			r0, r1 := f(a[0].(rf), a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M242
			r0, r1 := f(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M242(p0 float64, p1 five) (five, float64)
			}).M242(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M242(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M242(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M242(p0 float64, p1 five) (five, float64)
			} = &x
			r0, r1 := i.M242(a[1].(float64), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 interface{}, p1 five)", (rf).M243, func(r rf, p0 interface{}, p1 five) (five, interface{}) {
		gT17[0].H = r
		gT3[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT3[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M243(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M243(a[0].(rf), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M243
			r0, r1 := f(a[0].(rf), a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M243
			r0, r1 := f(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M243(p0 interface{}, p1 five) (five, interface{})
			}).M243(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M243(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M243(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M243(p0 interface{}, p1 five) (five, interface{})
			} = &x
			r0, r1 := i.M243(a[1], a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 int)", (rf).M244, func(r rf, p0 five, p1 int) (int, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M244(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M244(a[0].(rf), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M244
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M244
			r0, r1 := f(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M244(p0 five, p1 int) (int, five)
			}).M244(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M244(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M244(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M244(p0 five, p1 int) (int, five)
			} = &x
			r0, r1 := i.M244(a[1].(five), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 string)", (rf).M245, func(r rf, p0 five, p1 string) (string, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M245(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M245(a[0].(rf), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M245
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M245
			r0, r1 := f(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M245(p0 five, p1 string) (string, five)
			}).M245(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M245(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M245(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M245(p0 five, p1 string) (string, five)
			} = &x
			r0, r1 := i.M245(a[1].(five), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 float64)", (rf).M246, func(r rf, p0 five, p1 float64) (float64, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M246(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M246(a[0].(rf), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M246
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M246
			r0, r1 := f(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M246(p0 five, p1 float64) (float64, five)
			}).M246(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M246(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M246(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M246(p0 five, p1 float64) (float64, five)
			} = &x
			r0, r1 := i.M246(a[1].(five), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 interface{})", (rf).M247, func(r rf, p0 five, p1 interface{}) (interface{}, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M247(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M247(a[0].(rf), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M247
			r0, r1 := f(a[0].(rf), a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M247
			r0, r1 := f(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M247(p0 five, p1 interface{}) (interface{}, five)
			}).M247(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M247(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M247(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M247(p0 five, p1 interface{}) (interface{}, five)
			} = &x
			r0, r1 := i.M247(a[1].(five), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 five)", (rf).M248, func(r rf, p0 five, p1 five) (five, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M248(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M248(a[0].(rf), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M248
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M248
			r0, r1 := f(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M248(p0 five, p1 five) (five, five)
			}).M248(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M248(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M248(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M248(p0 five, p1 five) (five, five)
			} = &x
			r0, r1 := i.M248(a[1].(five), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 mixed)", (rf).M249, func(r rf, p0 five, p1 mixed) (mixed, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M249(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M249(a[0].(rf), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M249
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M249
			r0, r1 := f(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M249(p0 five, p1 mixed) (mixed, five)
			}).M249(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M249(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M249(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M249(p0 five, p1 mixed) (mixed, five)
			} = &x
			r0, r1 := i.M249(a[1].(five), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 five, p1 []byte)", (rf).M250, func(r rf, p0 five, p1 []byte) ([]byte, five) {
		gT17[0].H = r
		gT4[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT4[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M250(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M250(a[0].(rf), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M250
			r0, r1 := f(a[0].(rf), a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M250
			r0, r1 := f(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M250(p0 five, p1 []byte) ([]byte, five)
			}).M250(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M250(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M250(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M250(p0 five, p1 []byte) ([]byte, five)
			} = &x
			r0, r1 := i.M250(a[1].(five), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 int)", (rf).M251, func(r rf, p0 mixed, p1 int) (int, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT0[2].H = p1
		return gT0[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M251(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M251(a[0].(rf), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M251
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M251
			r0, r1 := f(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M251(p0 mixed, p1 int) (int, mixed)
			}).M251(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M251(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M251(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M251(p0 mixed, p1 int) (int, mixed)
			} = &x
			r0, r1 := i.M251(a[1].(mixed), a[2].(int))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 string)", (rf).M252, func(r rf, p0 mixed, p1 string) (string, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT1[2].H = p1
		return gT1[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M252(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M252(a[0].(rf), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M252
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M252
			r0, r1 := f(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M252(p0 mixed, p1 string) (string, mixed)
			}).M252(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M252(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M252(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M252(p0 mixed, p1 string) (string, mixed)
			} = &x
			r0, r1 := i.M252(a[1].(mixed), a[2].(string))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 float64)", (rf).M253, func(r rf, p0 mixed, p1 float64) (float64, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT2[2].H = p1
		return gT2[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M253(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M253(a[0].(rf), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M253
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M253
			r0, r1 := f(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M253(p0 mixed, p1 float64) (float64, mixed)
			}).M253(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M253(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M253(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M253(p0 mixed, p1 float64) (float64, mixed)
			} = &x
			r0, r1 := i.M253(a[1].(mixed), a[2].(float64))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 interface{})", (rf).M254, func(r rf, p0 mixed, p1 interface{}) (interface{}, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT3[2].H = p1
		return gT3[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M254(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M254(a[0].(rf), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M254
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M254
			r0, r1 := f(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M254(p0 mixed, p1 interface{}) (interface{}, mixed)
			}).M254(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M254(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M254(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M254(p0 mixed, p1 interface{}) (interface{}, mixed)
			} = &x
			r0, r1 := i.M254(a[1].(mixed), a[2])
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 five)", (rf).M255, func(r rf, p0 mixed, p1 five) (five, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M255(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M255(a[0].(rf), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M255
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M255
			r0, r1 := f(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M255(p0 mixed, p1 five) (five, mixed)
			}).M255(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M255(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M255(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M255(p0 mixed, p1 five) (five, mixed)
			} = &x
			r0, r1 := i.M255(a[1].(mixed), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 mixed)", (rf).M256, func(r rf, p0 mixed, p1 mixed) (mixed, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT5[2].H = p1
		return gT5[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M256(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M256(a[0].(rf), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M256
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M256
			r0, r1 := f(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M256(p0 mixed, p1 mixed) (mixed, mixed)
			}).M256(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M256(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M256(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M256(p0 mixed, p1 mixed) (mixed, mixed)
			} = &x
			r0, r1 := i.M256(a[1].(mixed), a[2].(mixed))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 mixed, p1 []byte)", (rf).M257, func(r rf, p0 mixed, p1 []byte) ([]byte, mixed) {
		gT17[0].H = r
		gT5[1].H = p0
		gT6[2].H = p1
		return gT6[0].R, gT5[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M257(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M257(a[0].(rf), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M257
			r0, r1 := f(a[0].(rf), a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M257
			r0, r1 := f(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M257(p0 mixed, p1 []byte) ([]byte, mixed)
			}).M257(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M257(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M257(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M257(p0 mixed, p1 []byte) ([]byte, mixed)
			} = &x
			r0, r1 := i.M257(a[1].(mixed), a[2].([]byte))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 []byte, p1 five)", (rf).M258, func(r rf, p0 []byte, p1 five) (five, []byte) {
		gT17[0].H = r
		gT6[1].H = p0
		gT4[2].H = p1
		return gT4[0].R, gT6[1].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1 := a[0].(rf).M258(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1 := (rf).M258(a[0].(rf), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M258
			r0, r1 := f(a[0].(rf), a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M258
			r0, r1 := f(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1 := i.(interface {
				M258(p0 []byte, p1 five) (five, []byte)
			}).M258(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1 := e.M258(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1 := p.M258(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M258(p0 []byte, p1 five) (five, []byte)
			} = &x
			r0, r1 := i.M258(a[1].([]byte), a[2].(five))
			return []interface{}{r0, r1}
		}},
	}},
	{"float (p0 ...int)", (rf).M259, func(r rf, p0 ...int) int {
		gT17[0].H = r
		gT7[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M259(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M259(a[0].(rf), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M259
			r0 := f(a[0].(rf), a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M259
			r0 := f(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M259(p0 ...int) int }).M259(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M259(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M259(a[1].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M259(p0 ...int) int } = &x
			r0 := i.M259(a[1].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...string)", (rf).M260, func(r rf, p0 ...string) int {
		gT17[0].H = r
		gT8[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M260(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M260(a[0].(rf), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M260
			r0 := f(a[0].(rf), a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M260
			r0 := f(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M260(p0 ...string) int }).M260(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M260(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M260(a[1].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M260(p0 ...string) int } = &x
			r0 := i.M260(a[1].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...float64)", (rf).M261, func(r rf, p0 ...float64) int {
		gT17[0].H = r
		gT9[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M261(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M261(a[0].(rf), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M261
			r0 := f(a[0].(rf), a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M261
			r0 := f(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M261(p0 ...float64) int }).M261(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M261(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M261(a[1].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M261(p0 ...float64) int } = &x
			r0 := i.M261(a[1].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...interface{})", (rf).M262, func(r rf, p0 ...interface{}) int {
		gT17[0].H = r
		gT10[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M262(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M262(a[0].(rf), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M262
			r0 := f(a[0].(rf), a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M262
			r0 := f(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M262(p0 ...interface{}) int }).M262(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M262(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M262(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M262(p0 ...interface{}) int } = &x
			r0 := i.M262(a[1].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...five)", (rf).M263, func(r rf, p0 ...five) int {
		gT17[0].H = r
		gT11[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M263(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M263(a[0].(rf), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M263
			r0 := f(a[0].(rf), a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M263
			r0 := f(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M263(p0 ...five) int }).M263(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M263(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M263(a[1].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M263(p0 ...five) int } = &x
			r0 := i.M263(a[1].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...mixed)", (rf).M264, func(r rf, p0 ...mixed) int {
		gT17[0].H = r
		gT12[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M264(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M264(a[0].(rf), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M264
			r0 := f(a[0].(rf), a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M264
			r0 := f(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M264(p0 ...mixed) int }).M264(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M264(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M264(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M264(p0 ...mixed) int } = &x
			r0 := i.M264(a[1].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 ...[]byte)", (rf).M265, func(r rf, p0 ...[]byte) int {
		gT17[0].H = r
		gT13[1].H = p0
		return gT0[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M265(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M265(a[0].(rf), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M265
			r0 := f(a[0].(rf), a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M265
			r0 := f(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface{ M265(p0 ...[]byte) int }).M265(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M265(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M265(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface{ M265(p0 ...[]byte) int } = &x
			r0 := i.M265(a[1].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...int)", (rf).M266, func(r rf, p0 float64, p1 ...int) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT7[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M266(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M266(a[0].(rf), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M266
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M266
			r0 := f(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M266(p0 float64, p1 ...int) float64
			}).M266(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M266(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M266(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M266(p0 float64, p1 ...int) float64
			} = &x
			r0 := i.M266(a[1].(float64), a[2].([]int)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...string)", (rf).M267, func(r rf, p0 float64, p1 ...string) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT8[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M267(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M267(a[0].(rf), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M267
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M267
			r0 := f(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M267(p0 float64, p1 ...string) float64
			}).M267(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M267(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M267(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M267(p0 float64, p1 ...string) float64
			} = &x
			r0 := i.M267(a[1].(float64), a[2].([]string)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...float64)", (rf).M268, func(r rf, p0 float64, p1 ...float64) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT9[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M268(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M268(a[0].(rf), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M268
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M268
			r0 := f(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M268(p0 float64, p1 ...float64) float64
			}).M268(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M268(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M268(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M268(p0 float64, p1 ...float64) float64
			} = &x
			r0 := i.M268(a[1].(float64), a[2].([]float64)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...interface{})", (rf).M269, func(r rf, p0 float64, p1 ...interface{}) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT10[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M269(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M269(a[0].(rf), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M269
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M269
			r0 := f(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M269(p0 float64, p1 ...interface{}) float64
			}).M269(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M269(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M269(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M269(p0 float64, p1 ...interface{}) float64
			} = &x
			r0 := i.M269(a[1].(float64), a[2].([]interface{})...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...five)", (rf).M270, func(r rf, p0 float64, p1 ...five) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT11[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M270(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M270(a[0].(rf), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M270
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M270
			r0 := f(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M270(p0 float64, p1 ...five) float64
			}).M270(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M270(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M270(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M270(p0 float64, p1 ...five) float64
			} = &x
			r0 := i.M270(a[1].(float64), a[2].([]five)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...mixed)", (rf).M271, func(r rf, p0 float64, p1 ...mixed) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT12[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M271(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M271(a[0].(rf), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M271
			r0 := f(a[0].(rf), a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M271
			r0 := f(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M271(p0 float64, p1 ...mixed) float64
			}).M271(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M271(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M271(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M271(p0 float64, p1 ...mixed) float64
			} = &x
			r0 := i.M271(a[1].(float64), a[2].([]mixed)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 float64, p1 ...[]byte)", (rf).M272, func(r rf, p0 float64, p1 ...[]byte) float64 {
		gT17[0].H = r
		gT2[1].H = p0
		gT13[2].H = p1
		return gT2[0].R
	}, true, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0 := a[0].(rf).M272(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0 := (rf).M272(a[0].(rf), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M272
			r0 := f(a[0].(rf), a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M272
			r0 := f(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0 := i.(interface {
				M272(p0 float64, p1 ...[]byte) float64
			}).M272(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0 := e.M272(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0 := p.M272(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M272(p0 float64, p1 ...[]byte) float64
			} = &x
			r0 := i.M272(a[1].(float64), a[2].([][]byte)...)
			return []interface{}{r0}
		}},
	}},
	{"float (p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int)", (rf).M273, func(r rf, p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int) {
		gT17[0].H = r
		gT0[1].H = p0
		gT0[2].H = p1
		gT0[3].H = p2
		gT0[4].H = p3
		gT0[5].H = p4
		gT0[6].H = p5
		gT0[7].H = p6
		gT0[8].H = p7
		gT0[9].H = p8
		gT0[10].H = p9
		return gT0[0].R, gT0[1].R, gT0[2].R, gT0[3].R, gT0[4].R, gT0[5].R, gT0[6].R, gT0[7].R, gT0[8].R, gT0[9].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := a[0].(rf).M273(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := (rf).M273(a[0].(rf), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M273
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[0].(rf), a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M273
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := f(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.(interface {
				M273(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			}).M273(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := e.M273(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := p.M273(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M273(p0 int, p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int) (int, int, int, int, int, int, int, int, int, int)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 := i.M273(a[1].(int), a[2].(int), a[3].(int), a[4].(int), a[5].(int), a[6].(int), a[7].(int), a[8].(int), a[9].(int), a[10].(int))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9}
		}},
	}},
	{"float (p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64)", (rf).M274, func(r rf, p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64) {
		gT17[0].H = r
		gT2[1].H = p0
		gT2[2].H = p1
		gT2[3].H = p2
		gT2[4].H = p3
		gT2[5].H = p4
		gT2[6].H = p5
		gT2[7].H = p6
		gT2[8].H = p7
		gT2[9].H = p8
		gT2[10].H = p9
		gT2[11].H = p10
		gT2[12].H = p11
		gT2[13].H = p12
		gT2[14].H = p13
		gT2[15].H = p14
		gT2[16].H = p15
		gT2[17].H = p16
		return gT2[0].R, gT2[1].R, gT2[2].R, gT2[3].R, gT2[4].R, gT2[5].R, gT2[6].R, gT2[7].R, gT2[8].R, gT2[9].R, gT2[10].R, gT2[11].R, gT2[12].R, gT2[13].R, gT2[14].R, gT2[15].R, gT2[16].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := a[0].(rf).M274(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := (rf).M274(a[0].(rf), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M274
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[0].(rf), a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M274
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := f(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.(interface {
				M274(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			}).M274(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := e.M274(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := p.M274(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M274(p0 float64, p1 float64, p2 float64, p3 float64, p4 float64, p5 float64, p6 float64, p7 float64, p8 float64, p9 float64, p10 float64, p11 float64, p12 float64, p13 float64, p14 float64, p15 float64, p16 float64) (float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64, float64)
			} = &x
			r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16 := i.M274(a[1].(float64), a[2].(float64), a[3].(float64), a[4].(float64), a[5].(float64), a[6].(float64), a[7].(float64), a[8].(float64), a[9].(float64), a[10].(float64), a[11].(float64), a[12].(float64), a[13].(float64), a[14].(float64), a[15].(float64), a[16].(float64), a[17].(float64))
			return []interface{}{r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16}
		}},
	}},
	{"float (p0 string, p1 five, p2 int, p3 mixed, p4 int)", (rf).M275, func(r rf, p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string) {
		gT17[0].H = r
		gT1[1].H = p0
		gT4[2].H = p1
		gT0[3].H = p2
		gT5[4].H = p3
		gT0[5].H = p4
		return gT0[0].R, gT5[1].R, gT0[2].R, gT4[3].R, gT1[4].R
	}, false, []path{
		{"direct", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := a[0].(rf).M275(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression", func(a []interface{}) []interface{} {
			r0, r1, r2, r3, r4 := (rf).M275(a[0].(rf), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method expression value", func(a []interface{}) []interface{} {
			f := (rf).M275
			r0, r1, r2, r3, r4 := f(a[0].(rf), a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"method value", func(a []interface{}) []interface{} {
			f := a[0].(rf).M275
			r0, r1, r2, r3, r4 := f(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface", func(a []interface{}) []interface{} {
			i := a[0]
			r0, r1, r2, r3, r4 := i.(interface {
				M275(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			}).M275(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"promoted", func(a []interface{}) []interface{} {
			e := struct {
				pad int
				rf
			}{1, a[0].(rf)}
			r0, r1, r2, r3, r4 := e.M275(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"through a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			p := &x
			r0, r1, r2, r3, r4 := p.M275(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
		{"interface holding a pointer", func(a []interface{}) []interface{} {
			x := a[0].(rf)
			var i interface {
				M275(p0 string, p1 five, p2 int, p3 mixed, p4 int) (int, mixed, int, five, string)
			} = &x
			r0, r1, r2, r3, r4 := i.M275(a[1].(string), a[2].(five), a[3].(int), a[4].(mixed), a[5].(int))
			return []interface{}{r0, r1, r2, r3, r4}
		}},
	}},
}
