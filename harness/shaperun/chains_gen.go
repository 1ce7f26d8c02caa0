// Code generated by tools/gen_chains.py. DO NOT EDIT.

package shaperun

import "fmt"

type decoyD struct{ v int }

func (r decoyD) Decoy(x int) int { fmt.Sprint(x); return x + 10001 }
func (r decoyD) decoy(x int) int { fmt.Sprint(x); return x + 10002 }

type cv0 struct {
	v          int
	DeepFieldV func(int) int
}

func (r cv0) Deep(x int) int   { fmt.Sprint(x); return x + 10003 }
func (r cv0) deep(x int) int   { fmt.Sprint(x); return x + 10004 }
func (r *cv0) DeepP(x int) int { fmt.Sprint(x); return x + 10005 }
func (r *cv0) deepP(x int) int { fmt.Sprint(x); return x + 10006 }

type cv1 struct {
	k int
	*decoyD
	cv0
}

func (r *cv1) Own1(x int) int { fmt.Sprint(x); return x + 10007 }
func (r cv1) own1(x int) int  { fmt.Sprint(x); return x + 10008 }

type cv2 struct {
	k int
	cv1
}

func (r *cv2) Own2(x int) int { fmt.Sprint(x); return x + 10009 }
func (r cv2) own2(x int) int  { fmt.Sprint(x); return x + 10010 }

type cv3 struct {
	k int
	cv2
}

func (r cv3) Own3(x int) int { fmt.Sprint(x); return x + 10011 }
func (r cv3) own3(x int) int { fmt.Sprint(x); return x + 10012 }

type cv4 struct {
	k int
	cv3
}

func (r *cv4) Own4(x int) int { fmt.Sprint(x); return x + 10013 }
func (r cv4) own4(x int) int  { fmt.Sprint(x); return x + 10014 }

type cv5 struct {
	k int
	cv4
}

func (r *cv5) Own5(x int) int { fmt.Sprint(x); return x + 10015 }
func (r cv5) own5(x int) int  { fmt.Sprint(x); return x + 10016 }

type cv6 struct {
	k int
	cv5
}

func (r cv6) Own6(x int) int { fmt.Sprint(x); return x + 10017 }
func (r cv6) own6(x int) int { fmt.Sprint(x); return x + 10018 }

type cv7 struct {
	k int
	cv6
}

func (r *cv7) Own7(x int) int { fmt.Sprint(x); return x + 10019 }
func (r cv7) own7(x int) int  { fmt.Sprint(x); return x + 10020 }

type cv8 struct {
	k int
	cv7
}

func (r *cv8) Own8(x int) int { fmt.Sprint(x); return x + 10021 }
func (r cv8) own8(x int) int  { fmt.Sprint(x); return x + 10022 }

type cv9 struct {
	k int
	cv8
}

func (r cv9) Own9(x int) int { fmt.Sprint(x); return x + 10023 }
func (r cv9) own9(x int) int { fmt.Sprint(x); return x + 10024 }

type cv10 struct {
	k int
	cv9
}

func (r *cv10) Own10(x int) int { fmt.Sprint(x); return x + 10025 }
func (r cv10) own10(x int) int  { fmt.Sprint(x); return x + 10026 }

type cv11 struct {
	k int
	cv10
}

func (r *cv11) Own11(x int) int { fmt.Sprint(x); return x + 10027 }
func (r cv11) own11(x int) int  { fmt.Sprint(x); return x + 10028 }

type cv12 struct {
	k int
	cv11
}

func (r cv12) Own12(x int) int { fmt.Sprint(x); return x + 10029 }
func (r cv12) own12(x int) int { fmt.Sprint(x); return x + 10030 }

type cv13 struct {
	k int
	cv12
}

func (r *cv13) Own13(x int) int { fmt.Sprint(x); return x + 10031 }
func (r cv13) own13(x int) int  { fmt.Sprint(x); return x + 10032 }

type cv14 struct {
	k int
	cv13
}

func (r *cv14) Own14(x int) int { fmt.Sprint(x); return x + 10033 }
func (r cv14) own14(x int) int  { fmt.Sprint(x); return x + 10034 }

type cv15 struct {
	k int
	cv14
}

func (r cv15) Own15(x int) int { fmt.Sprint(x); return x + 10035 }
func (r cv15) own15(x int) int { fmt.Sprint(x); return x + 10036 }

type cv16 struct {
	k int
	cv15
}

func (r *cv16) Own16(x int) int { fmt.Sprint(x); return x + 10037 }
func (r cv16) own16(x int) int  { fmt.Sprint(x); return x + 10038 }

type cv17 struct {
	k int
	cv16
}

func (r *cv17) Own17(x int) int { fmt.Sprint(x); return x + 10039 }
func (r cv17) own17(x int) int  { fmt.Sprint(x); return x + 10040 }

type cv18 struct {
	k int
	cv17
}

func (r cv18) Own18(x int) int { fmt.Sprint(x); return x + 10041 }
func (r cv18) own18(x int) int { fmt.Sprint(x); return x + 10042 }

type cv19 struct {
	k int
	cv18
}

func (r *cv19) Own19(x int) int { fmt.Sprint(x); return x + 10043 }
func (r cv19) own19(x int) int  { fmt.Sprint(x); return x + 10044 }

type cv20 struct {
	k int
	cv19
}

func (r *cv20) Own20(x int) int { fmt.Sprint(x); return x + 10045 }
func (r cv20) own20(x int) int  { fmt.Sprint(x); return x + 10046 }

type cv21 struct {
	k int
	cv20
}

func (r cv21) Own21(x int) int { fmt.Sprint(x); return x + 10047 }
func (r cv21) own21(x int) int { fmt.Sprint(x); return x + 10048 }

type cv22 struct {
	k int
	cv21
}

func (r *cv22) Own22(x int) int { fmt.Sprint(x); return x + 10049 }
func (r cv22) own22(x int) int  { fmt.Sprint(x); return x + 10050 }

type cv23 struct {
	k int
	cv22
}

func (r *cv23) Own23(x int) int { fmt.Sprint(x); return x + 10051 }
func (r cv23) own23(x int) int  { fmt.Sprint(x); return x + 10052 }

type cv24 struct {
	k int
	cv23
}

func (r cv24) Own24(x int) int { fmt.Sprint(x); return x + 10053 }
func (r cv24) own24(x int) int { fmt.Sprint(x); return x + 10054 }

var valcv1 = cv1{k: 1, decoyD: &decoyD{2}, cv0: cv0{v: 1, DeepFieldV: func(x int) int { fmt.Sprint(x); return x + 31 }}}

var valcv2 = cv2{k: 2, cv1: valcv1}

var valcv3 = cv3{k: 3, cv2: valcv2}

var valcv4 = cv4{k: 4, cv3: valcv3}

var valcv5 = cv5{k: 5, cv4: valcv4}

var valcv6 = cv6{k: 6, cv5: valcv5}

var valcv7 = cv7{k: 7, cv6: valcv6}

var valcv8 = cv8{k: 8, cv7: valcv7}

var valcv9 = cv9{k: 9, cv8: valcv8}

var valcv10 = cv10{k: 10, cv9: valcv9}

var valcv11 = cv11{k: 11, cv10: valcv10}

var valcv12 = cv12{k: 12, cv11: valcv11}

var valcv13 = cv13{k: 13, cv12: valcv12}

var valcv14 = cv14{k: 14, cv13: valcv13}

var valcv15 = cv15{k: 15, cv14: valcv14}

var valcv16 = cv16{k: 16, cv15: valcv15}

var valcv17 = cv17{k: 17, cv16: valcv16}

var valcv18 = cv18{k: 18, cv17: valcv17}

var valcv19 = cv19{k: 19, cv18: valcv18}

var valcv20 = cv20{k: 20, cv19: valcv19}

var valcv21 = cv21{k: 21, cv20: valcv20}

var valcv22 = cv22{k: 22, cv21: valcv21}

var valcv23 = cv23{k: 23, cv22: valcv22}

var valcv24 = cv24{k: 24, cv23: valcv23}

type cp0 struct {
	v          int
	DeepFieldP func(int) int
}

func (r cp0) Deep(x int) int   { fmt.Sprint(x); return x + 10055 }
func (r cp0) deep(x int) int   { fmt.Sprint(x); return x + 10056 }
func (r *cp0) DeepP(x int) int { fmt.Sprint(x); return x + 10057 }
func (r *cp0) deepP(x int) int { fmt.Sprint(x); return x + 10058 }

type cp1 struct {
	k int
	*decoyD
	*cp0
}

func (r *cp1) Own1(x int) int { fmt.Sprint(x); return x + 10059 }
func (r cp1) own1(x int) int  { fmt.Sprint(x); return x + 10060 }

type cp2 struct {
	k int
	*cp1
}

func (r *cp2) Own2(x int) int { fmt.Sprint(x); return x + 10061 }
func (r cp2) own2(x int) int  { fmt.Sprint(x); return x + 10062 }

type cp3 struct {
	k int
	*cp2
}

func (r cp3) Own3(x int) int { fmt.Sprint(x); return x + 10063 }
func (r cp3) own3(x int) int { fmt.Sprint(x); return x + 10064 }

type cp4 struct {
	k int
	*cp3
}

func (r *cp4) Own4(x int) int { fmt.Sprint(x); return x + 10065 }
func (r cp4) own4(x int) int  { fmt.Sprint(x); return x + 10066 }

type cp5 struct {
	k int
	*cp4
}

func (r *cp5) Own5(x int) int { fmt.Sprint(x); return x + 10067 }
func (r cp5) own5(x int) int  { fmt.Sprint(x); return x + 10068 }

type cp6 struct {
	k int
	*cp5
}

func (r cp6) Own6(x int) int { fmt.Sprint(x); return x + 10069 }
func (r cp6) own6(x int) int { fmt.Sprint(x); return x + 10070 }

type cp7 struct {
	k int
	*cp6
}

func (r *cp7) Own7(x int) int { fmt.Sprint(x); return x + 10071 }
func (r cp7) own7(x int) int  { fmt.Sprint(x); return x + 10072 }

type cp8 struct {
	k int
	*cp7
}

func (r *cp8) Own8(x int) int { fmt.Sprint(x); return x + 10073 }
func (r cp8) own8(x int) int  { fmt.Sprint(x); return x + 10074 }

type cp9 struct {
	k int
	*cp8
}

func (r cp9) Own9(x int) int { fmt.Sprint(x); return x + 10075 }
func (r cp9) own9(x int) int { fmt.Sprint(x); return x + 10076 }

type cp10 struct {
	k int
	*cp9
}

func (r *cp10) Own10(x int) int { fmt.Sprint(x); return x + 10077 }
func (r cp10) own10(x int) int  { fmt.Sprint(x); return x + 10078 }

type cp11 struct {
	k int
	*cp10
}

func (r *cp11) Own11(x int) int { fmt.Sprint(x); return x + 10079 }
func (r cp11) own11(x int) int  { fmt.Sprint(x); return x + 10080 }

type cp12 struct {
	k int
	*cp11
}

func (r cp12) Own12(x int) int { fmt.Sprint(x); return x + 10081 }
func (r cp12) own12(x int) int { fmt.Sprint(x); return x + 10082 }

type cp13 struct {
	k int
	*cp12
}

func (r *cp13) Own13(x int) int { fmt.Sprint(x); return x + 10083 }
func (r cp13) own13(x int) int  { fmt.Sprint(x); return x + 10084 }

type cp14 struct {
	k int
	*cp13
}

func (r *cp14) Own14(x int) int { fmt.Sprint(x); return x + 10085 }
func (r cp14) own14(x int) int  { fmt.Sprint(x); return x + 10086 }

type cp15 struct {
	k int
	*cp14
}

func (r cp15) Own15(x int) int { fmt.Sprint(x); return x + 10087 }
func (r cp15) own15(x int) int { fmt.Sprint(x); return x + 10088 }

type cp16 struct {
	k int
	*cp15
}

func (r *cp16) Own16(x int) int { fmt.Sprint(x); return x + 10089 }
func (r cp16) own16(x int) int  { fmt.Sprint(x); return x + 10090 }

type cp17 struct {
	k int
	*cp16
}

func (r *cp17) Own17(x int) int { fmt.Sprint(x); return x + 10091 }
func (r cp17) own17(x int) int  { fmt.Sprint(x); return x + 10092 }

type cp18 struct {
	k int
	*cp17
}

func (r cp18) Own18(x int) int { fmt.Sprint(x); return x + 10093 }
func (r cp18) own18(x int) int { fmt.Sprint(x); return x + 10094 }

type cp19 struct {
	k int
	*cp18
}

func (r *cp19) Own19(x int) int { fmt.Sprint(x); return x + 10095 }
func (r cp19) own19(x int) int  { fmt.Sprint(x); return x + 10096 }

type cp20 struct {
	k int
	*cp19
}

func (r *cp20) Own20(x int) int { fmt.Sprint(x); return x + 10097 }
func (r cp20) own20(x int) int  { fmt.Sprint(x); return x + 10098 }

type cp21 struct {
	k int
	*cp20
}

func (r cp21) Own21(x int) int { fmt.Sprint(x); return x + 10099 }
func (r cp21) own21(x int) int { fmt.Sprint(x); return x + 10100 }

type cp22 struct {
	k int
	*cp21
}

func (r *cp22) Own22(x int) int { fmt.Sprint(x); return x + 10101 }
func (r cp22) own22(x int) int  { fmt.Sprint(x); return x + 10102 }

type cp23 struct {
	k int
	*cp22
}

func (r *cp23) Own23(x int) int { fmt.Sprint(x); return x + 10103 }
func (r cp23) own23(x int) int  { fmt.Sprint(x); return x + 10104 }

type cp24 struct {
	k int
	*cp23
}

func (r cp24) Own24(x int) int { fmt.Sprint(x); return x + 10105 }
func (r cp24) own24(x int) int { fmt.Sprint(x); return x + 10106 }

var valcp1 = cp1{k: 1, decoyD: &decoyD{2}, cp0: &cp0{v: 1, DeepFieldP: func(x int) int { fmt.Sprint(x); return x + 31 }}}

var valcp2 = cp2{k: 2, cp1: &valcp1}

var valcp3 = cp3{k: 3, cp2: &valcp2}

var valcp4 = cp4{k: 4, cp3: &valcp3}

var valcp5 = cp5{k: 5, cp4: &valcp4}

var valcp6 = cp6{k: 6, cp5: &valcp5}

var valcp7 = cp7{k: 7, cp6: &valcp6}

var valcp8 = cp8{k: 8, cp7: &valcp7}

var valcp9 = cp9{k: 9, cp8: &valcp8}

var valcp10 = cp10{k: 10, cp9: &valcp9}

var valcp11 = cp11{k: 11, cp10: &valcp10}

var valcp12 = cp12{k: 12, cp11: &valcp11}

var valcp13 = cp13{k: 13, cp12: &valcp12}

var valcp14 = cp14{k: 14, cp13: &valcp13}

var valcp15 = cp15{k: 15, cp14: &valcp14}

var valcp16 = cp16{k: 16, cp15: &valcp15}

var valcp17 = cp17{k: 17, cp16: &valcp16}

var valcp18 = cp18{k: 18, cp17: &valcp17}

var valcp19 = cp19{k: 19, cp18: &valcp18}

var valcp20 = cp20{k: 20, cp19: &valcp19}

var valcp21 = cp21{k: 21, cp20: &valcp20}

var valcp22 = cp22{k: 22, cp21: &valcp21}

var valcp23 = cp23{k: 23, cp22: &valcp22}

var valcp24 = cp24{k: 24, cp23: &valcp23}

type cm0 struct {
	v          int
	DeepFieldM func(int) int
}

func (r cm0) Deep(x int) int   { fmt.Sprint(x); return x + 10107 }
func (r cm0) deep(x int) int   { fmt.Sprint(x); return x + 10108 }
func (r *cm0) DeepP(x int) int { fmt.Sprint(x); return x + 10109 }
func (r *cm0) deepP(x int) int { fmt.Sprint(x); return x + 10110 }

type cm1 struct {
	k int
	*decoyD
	cm0
}

func (r *cm1) Own1(x int) int { fmt.Sprint(x); return x + 10111 }
func (r cm1) own1(x int) int  { fmt.Sprint(x); return x + 10112 }

type cm2 struct {
	k int
	*cm1
}

func (r *cm2) Own2(x int) int { fmt.Sprint(x); return x + 10113 }
func (r cm2) own2(x int) int  { fmt.Sprint(x); return x + 10114 }

type cm3 struct {
	k int
	cm2
}

func (r cm3) Own3(x int) int { fmt.Sprint(x); return x + 10115 }
func (r cm3) own3(x int) int { fmt.Sprint(x); return x + 10116 }

type cm4 struct {
	k int
	*cm3
}

func (r *cm4) Own4(x int) int { fmt.Sprint(x); return x + 10117 }
func (r cm4) own4(x int) int  { fmt.Sprint(x); return x + 10118 }

type cm5 struct {
	k int
	cm4
}

func (r *cm5) Own5(x int) int { fmt.Sprint(x); return x + 10119 }
func (r cm5) own5(x int) int  { fmt.Sprint(x); return x + 10120 }

type cm6 struct {
	k int
	*cm5
}

func (r cm6) Own6(x int) int { fmt.Sprint(x); return x + 10121 }
func (r cm6) own6(x int) int { fmt.Sprint(x); return x + 10122 }

type cm7 struct {
	k int
	cm6
}

func (r *cm7) Own7(x int) int { fmt.Sprint(x); return x + 10123 }
func (r cm7) own7(x int) int  { fmt.Sprint(x); return x + 10124 }

type cm8 struct {
	k int
	*cm7
}

func (r *cm8) Own8(x int) int { fmt.Sprint(x); return x + 10125 }
func (r cm8) own8(x int) int  { fmt.Sprint(x); return x + 10126 }

type cm9 struct {
	k int
	cm8
}

func (r cm9) Own9(x int) int { fmt.Sprint(x); return x + 10127 }
func (r cm9) own9(x int) int { fmt.Sprint(x); return x + 10128 }

type cm10 struct {
	k int
	*cm9
}

func (r *cm10) Own10(x int) int { fmt.Sprint(x); return x + 10129 }
func (r cm10) own10(x int) int  { fmt.Sprint(x); return x + 10130 }

type cm11 struct {
	k int
	cm10
}

func (r *cm11) Own11(x int) int { fmt.Sprint(x); return x + 10131 }
func (r cm11) own11(x int) int  { fmt.Sprint(x); return x + 10132 }

type cm12 struct {
	k int
	*cm11
}

func (r cm12) Own12(x int) int { fmt.Sprint(x); return x + 10133 }
func (r cm12) own12(x int) int { fmt.Sprint(x); return x + 10134 }

type cm13 struct {
	k int
	cm12
}

func (r *cm13) Own13(x int) int { fmt.Sprint(x); return x + 10135 }
func (r cm13) own13(x int) int  { fmt.Sprint(x); return x + 10136 }

type cm14 struct {
	k int
	*cm13
}

func (r *cm14) Own14(x int) int { fmt.Sprint(x); return x + 10137 }
func (r cm14) own14(x int) int  { fmt.Sprint(x); return x + 10138 }

type cm15 struct {
	k int
	cm14
}

func (r cm15) Own15(x int) int { fmt.Sprint(x); return x + 10139 }
func (r cm15) own15(x int) int { fmt.Sprint(x); return x + 10140 }

type cm16 struct {
	k int
	*cm15
}

func (r *cm16) Own16(x int) int { fmt.Sprint(x); return x + 10141 }
func (r cm16) own16(x int) int  { fmt.Sprint(x); return x + 10142 }

type cm17 struct {
	k int
	cm16
}

func (r *cm17) Own17(x int) int { fmt.Sprint(x); return x + 10143 }
func (r cm17) own17(x int) int  { fmt.Sprint(x); return x + 10144 }

type cm18 struct {
	k int
	*cm17
}

func (r cm18) Own18(x int) int { fmt.Sprint(x); return x + 10145 }
func (r cm18) own18(x int) int { fmt.Sprint(x); return x + 10146 }

type cm19 struct {
	k int
	cm18
}

func (r *cm19) Own19(x int) int { fmt.Sprint(x); return x + 10147 }
func (r cm19) own19(x int) int  { fmt.Sprint(x); return x + 10148 }

type cm20 struct {
	k int
	*cm19
}

func (r *cm20) Own20(x int) int { fmt.Sprint(x); return x + 10149 }
func (r cm20) own20(x int) int  { fmt.Sprint(x); return x + 10150 }

type cm21 struct {
	k int
	cm20
}

func (r cm21) Own21(x int) int { fmt.Sprint(x); return x + 10151 }
func (r cm21) own21(x int) int { fmt.Sprint(x); return x + 10152 }

type cm22 struct {
	k int
	*cm21
}

func (r *cm22) Own22(x int) int { fmt.Sprint(x); return x + 10153 }
func (r cm22) own22(x int) int  { fmt.Sprint(x); return x + 10154 }

type cm23 struct {
	k int
	cm22
}

func (r *cm23) Own23(x int) int { fmt.Sprint(x); return x + 10155 }
func (r cm23) own23(x int) int  { fmt.Sprint(x); return x + 10156 }

type cm24 struct {
	k int
	*cm23
}

func (r cm24) Own24(x int) int { fmt.Sprint(x); return x + 10157 }
func (r cm24) own24(x int) int { fmt.Sprint(x); return x + 10158 }

var valcm1 = cm1{k: 1, decoyD: &decoyD{2}, cm0: cm0{v: 1, DeepFieldM: func(x int) int { fmt.Sprint(x); return x + 31 }}}

var valcm2 = cm2{k: 2, cm1: &valcm1}

var valcm3 = cm3{k: 3, cm2: valcm2}

var valcm4 = cm4{k: 4, cm3: &valcm3}

var valcm5 = cm5{k: 5, cm4: valcm4}

var valcm6 = cm6{k: 6, cm5: &valcm5}

var valcm7 = cm7{k: 7, cm6: valcm6}

var valcm8 = cm8{k: 8, cm7: &valcm7}

var valcm9 = cm9{k: 9, cm8: valcm8}

var valcm10 = cm10{k: 10, cm9: &valcm9}

var valcm11 = cm11{k: 11, cm10: valcm10}

var valcm12 = cm12{k: 12, cm11: &valcm11}

var valcm13 = cm13{k: 13, cm12: valcm12}

var valcm14 = cm14{k: 14, cm13: &valcm13}

var valcm15 = cm15{k: 15, cm14: valcm14}

var valcm16 = cm16{k: 16, cm15: &valcm15}

var valcm17 = cm17{k: 17, cm16: valcm16}

var valcm18 = cm18{k: 18, cm17: &valcm17}

var valcm19 = cm19{k: 19, cm18: valcm18}

var valcm20 = cm20{k: 20, cm19: &valcm19}

var valcm21 = cm21{k: 21, cm20: valcm20}

var valcm22 = cm22{k: 22, cm21: &valcm21}

var valcm23 = cm23{k: 23, cm22: valcm22}

var valcm24 = cm24{k: 24, cm23: &valcm23}

type wide0 struct{ v int }

func (r wide0) Wide0(x int) int  { fmt.Sprint(x); return x + 10159 }
func (r wide0) wide0_(x int) int { fmt.Sprint(x); return x + 10160 }

type wide1 struct{ v int }

func (r *wide1) Wide1(x int) int  { fmt.Sprint(x); return x + 10161 }
func (r *wide1) wide1_(x int) int { fmt.Sprint(x); return x + 10162 }

type wide2 struct{ v int }

func (r wide2) Wide2(x int) int   { fmt.Sprint(x); return x + 10163 }
func (r *wide2) wide2_(x int) int { fmt.Sprint(x); return x + 10164 }

type wide3 struct{ v int }

func (r *wide3) Wide3(x int) int { fmt.Sprint(x); return x + 10165 }
func (r wide3) wide3_(x int) int { fmt.Sprint(x); return x + 10166 }

type wide4 struct{ v int }

func (r wide4) Wide4(x int) int   { fmt.Sprint(x); return x + 10167 }
func (r *wide4) wide4_(x int) int { fmt.Sprint(x); return x + 10168 }

type wide5 struct{ v int }

func (r *wide5) Wide5(x int) int  { fmt.Sprint(x); return x + 10169 }
func (r *wide5) wide5_(x int) int { fmt.Sprint(x); return x + 10170 }

type wide6 struct{ v int }

func (r wide6) Wide6(x int) int  { fmt.Sprint(x); return x + 10171 }
func (r wide6) wide6_(x int) int { fmt.Sprint(x); return x + 10172 }

type wide7 struct{ v int }

func (r *wide7) Wide7(x int) int  { fmt.Sprint(x); return x + 10173 }
func (r *wide7) wide7_(x int) int { fmt.Sprint(x); return x + 10174 }

type wide8 struct{ v int }

func (r wide8) Wide8(x int) int   { fmt.Sprint(x); return x + 10175 }
func (r *wide8) wide8_(x int) int { fmt.Sprint(x); return x + 10176 }

type wide9 struct{ v int }

func (r *wide9) Wide9(x int) int { fmt.Sprint(x); return x + 10177 }
func (r wide9) wide9_(x int) int { fmt.Sprint(x); return x + 10178 }

type wide10 struct{ v int }

func (r wide10) Wide10(x int) int   { fmt.Sprint(x); return x + 10179 }
func (r *wide10) wide10_(x int) int { fmt.Sprint(x); return x + 10180 }

type wide11 struct{ v int }

func (r *wide11) Wide11(x int) int  { fmt.Sprint(x); return x + 10181 }
func (r *wide11) wide11_(x int) int { fmt.Sprint(x); return x + 10182 }

type wide12 struct{ v int }

func (r wide12) Wide12(x int) int  { fmt.Sprint(x); return x + 10183 }
func (r wide12) wide12_(x int) int { fmt.Sprint(x); return x + 10184 }

type wide13 struct{ v int }

func (r *wide13) Wide13(x int) int  { fmt.Sprint(x); return x + 10185 }
func (r *wide13) wide13_(x int) int { fmt.Sprint(x); return x + 10186 }

type wide14 struct{ v int }

func (r wide14) Wide14(x int) int   { fmt.Sprint(x); return x + 10187 }
func (r *wide14) wide14_(x int) int { fmt.Sprint(x); return x + 10188 }

type wide15 struct{ v int }

func (r *wide15) Wide15(x int) int { fmt.Sprint(x); return x + 10189 }
func (r wide15) wide15_(x int) int { fmt.Sprint(x); return x + 10190 }

type wide16 struct{ v int }

func (r wide16) Wide16(x int) int   { fmt.Sprint(x); return x + 10191 }
func (r *wide16) wide16_(x int) int { fmt.Sprint(x); return x + 10192 }

type wide17 struct{ v int }

func (r *wide17) Wide17(x int) int  { fmt.Sprint(x); return x + 10193 }
func (r *wide17) wide17_(x int) int { fmt.Sprint(x); return x + 10194 }

type wide18 struct{ v int }

func (r wide18) Wide18(x int) int  { fmt.Sprint(x); return x + 10195 }
func (r wide18) wide18_(x int) int { fmt.Sprint(x); return x + 10196 }

type wide19 struct{ v int }

func (r *wide19) Wide19(x int) int  { fmt.Sprint(x); return x + 10197 }
func (r *wide19) wide19_(x int) int { fmt.Sprint(x); return x + 10198 }

type wide20 struct{ v int }

func (r wide20) Wide20(x int) int   { fmt.Sprint(x); return x + 10199 }
func (r *wide20) wide20_(x int) int { fmt.Sprint(x); return x + 10200 }

type wide21 struct{ v int }

func (r *wide21) Wide21(x int) int { fmt.Sprint(x); return x + 10201 }
func (r wide21) wide21_(x int) int { fmt.Sprint(x); return x + 10202 }

type wide22 struct{ v int }

func (r wide22) Wide22(x int) int   { fmt.Sprint(x); return x + 10203 }
func (r *wide22) wide22_(x int) int { fmt.Sprint(x); return x + 10204 }

type wide23 struct{ v int }

func (r *wide23) Wide23(x int) int  { fmt.Sprint(x); return x + 10205 }
func (r *wide23) wide23_(x int) int { fmt.Sprint(x); return x + 10206 }

type wideAll struct {
	wide0
	wide1
	wide2
	wide3
	*wide4
	wide5
	wide6
	wide7
	wide8
	*wide9
	wide10
	wide11
	wide12
	wide13
	*wide14
	wide15
	wide16
	wide17
	wide18
	*wide19
	wide20
	wide21
	wide22
	wide23
}

type wideTop struct {
	k int
	*wideAll
}

var valWide = wideTop{1, &wideAll{wide0{0}, wide1{1}, wide2{2}, wide3{3}, &wide4{4}, wide5{5}, wide6{6}, wide7{7}, wide8{8}, &wide9{9}, wide10{10}, wide11{11}, wide12{12}, wide13{13}, &wide14{14}, wide15{15}, wide16{16}, wide17{17}, wide18{18}, &wide19{19}, wide20{20}, wide21{21}, wide22{22}, wide23{23}}}

func chainSpecials() []special {
	val := func(v interface{}) func() interface{} { return func() interface{} { return v } }
	is := func(x int) bool { return x == -5 }
	five := []interface{}{-5}
	return []special{
		{"chain of 1 embedded fields", val(&valcv1), "Deep", func() bool { return is(valcv1.Deep(1)) }, five, func() bool { return is(valcv1.deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "Deep", func() bool { return is(valcv1.Deep(1)) }, five, func() bool { return is(valcv1.deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "deep", func() bool { return is(valcv1.deep(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "deep", func() bool { return is(valcv1.deep(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "DeepP", func() bool { return is(valcv1.DeepP(1)) }, five, func() bool { return is(valcv1.deepP(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "DeepP", func() bool { return is(valcv1.DeepP(1)) }, five, func() bool { return is(valcv1.deepP(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "deepP", func() bool { return is(valcv1.deepP(1)) }, five, func() bool { return is(valcv1.DeepP(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "deepP", func() bool { return is(valcv1.deepP(1)) }, five, func() bool { return is(valcv1.DeepP(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "DeepFieldV", func() bool { return is(valcv1.DeepFieldV(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "DeepFieldV", func() bool { return is(valcv1.DeepFieldV(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "Decoy", func() bool { return is(valcv1.Decoy(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "Decoy", func() bool { return is(valcv1.Decoy(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "decoy", func() bool { return is(valcv1.decoy(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "decoy", func() bool { return is(valcv1.decoy(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "Own1", func() bool { return is(valcv1.Own1(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "Own1", func() bool { return is(valcv1.Own1(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(&valcv1), "own1", func() bool { return is(valcv1.own1(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 embedded fields", val(valcv1), "own1", func() bool { return is(valcv1.own1(1)) }, five, func() bool { return is(valcv1.Deep(1)) }},
		{"chain of 1 fields", val(&valcv1), "Nope", nil, nil, nil},
		{"chain of 1 fields", val(&valcv1), "nope", nil, nil, nil},
		{"chain of 2 embedded fields", val(&valcv2), "Deep", func() bool { return is(valcv2.Deep(1)) }, five, func() bool { return is(valcv2.deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "Deep", func() bool { return is(valcv2.Deep(1)) }, five, func() bool { return is(valcv2.deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "deep", func() bool { return is(valcv2.deep(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "deep", func() bool { return is(valcv2.deep(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "DeepP", func() bool { return is(valcv2.DeepP(1)) }, five, func() bool { return is(valcv2.deepP(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "DeepP", func() bool { return is(valcv2.DeepP(1)) }, five, func() bool { return is(valcv2.deepP(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "deepP", func() bool { return is(valcv2.deepP(1)) }, five, func() bool { return is(valcv2.DeepP(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "deepP", func() bool { return is(valcv2.deepP(1)) }, five, func() bool { return is(valcv2.DeepP(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "DeepFieldV", func() bool { return is(valcv2.DeepFieldV(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "DeepFieldV", func() bool { return is(valcv2.DeepFieldV(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "Decoy", func() bool { return is(valcv2.Decoy(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "Decoy", func() bool { return is(valcv2.Decoy(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "decoy", func() bool { return is(valcv2.decoy(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "decoy", func() bool { return is(valcv2.decoy(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "Own1", func() bool { return is(valcv2.Own1(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "Own1", func() bool { return is(valcv2.Own1(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "Own2", func() bool { return is(valcv2.Own2(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "Own2", func() bool { return is(valcv2.Own2(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "own1", func() bool { return is(valcv2.own1(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "own1", func() bool { return is(valcv2.own1(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(&valcv2), "own2", func() bool { return is(valcv2.own2(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 embedded fields", val(valcv2), "own2", func() bool { return is(valcv2.own2(1)) }, five, func() bool { return is(valcv2.Deep(1)) }},
		{"chain of 2 fields", val(&valcv2), "Nope", nil, nil, nil},
		{"chain of 2 fields", val(&valcv2), "nope", nil, nil, nil},
		{"chain of 3 embedded fields", val(&valcv3), "Deep", func() bool { return is(valcv3.Deep(1)) }, five, func() bool { return is(valcv3.deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "Deep", func() bool { return is(valcv3.Deep(1)) }, five, func() bool { return is(valcv3.deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "deep", func() bool { return is(valcv3.deep(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "deep", func() bool { return is(valcv3.deep(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "DeepP", func() bool { return is(valcv3.DeepP(1)) }, five, func() bool { return is(valcv3.deepP(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "DeepP", func() bool { return is(valcv3.DeepP(1)) }, five, func() bool { return is(valcv3.deepP(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "deepP", func() bool { return is(valcv3.deepP(1)) }, five, func() bool { return is(valcv3.DeepP(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "deepP", func() bool { return is(valcv3.deepP(1)) }, five, func() bool { return is(valcv3.DeepP(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "DeepFieldV", func() bool { return is(valcv3.DeepFieldV(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "DeepFieldV", func() bool { return is(valcv3.DeepFieldV(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "Decoy", func() bool { return is(valcv3.Decoy(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "Decoy", func() bool { return is(valcv3.Decoy(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "decoy", func() bool { return is(valcv3.decoy(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "decoy", func() bool { return is(valcv3.decoy(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "Own1", func() bool { return is(valcv3.Own1(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "Own1", func() bool { return is(valcv3.Own1(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "Own2", func() bool { return is(valcv3.Own2(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "Own2", func() bool { return is(valcv3.Own2(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "Own3", func() bool { return is(valcv3.Own3(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "Own3", func() bool { return is(valcv3.Own3(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "own1", func() bool { return is(valcv3.own1(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "own1", func() bool { return is(valcv3.own1(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "own2", func() bool { return is(valcv3.own2(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "own2", func() bool { return is(valcv3.own2(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(&valcv3), "own3", func() bool { return is(valcv3.own3(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 embedded fields", val(valcv3), "own3", func() bool { return is(valcv3.own3(1)) }, five, func() bool { return is(valcv3.Deep(1)) }},
		{"chain of 3 fields", val(&valcv3), "Nope", nil, nil, nil},
		{"chain of 3 fields", val(&valcv3), "nope", nil, nil, nil},
		{"chain of 4 embedded fields", val(&valcv4), "Deep", func() bool { return is(valcv4.Deep(1)) }, five, func() bool { return is(valcv4.deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Deep", func() bool { return is(valcv4.Deep(1)) }, five, func() bool { return is(valcv4.deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "deep", func() bool { return is(valcv4.deep(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "deep", func() bool { return is(valcv4.deep(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "DeepP", func() bool { return is(valcv4.DeepP(1)) }, five, func() bool { return is(valcv4.deepP(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "DeepP", func() bool { return is(valcv4.DeepP(1)) }, five, func() bool { return is(valcv4.deepP(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "deepP", func() bool { return is(valcv4.deepP(1)) }, five, func() bool { return is(valcv4.DeepP(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "deepP", func() bool { return is(valcv4.deepP(1)) }, five, func() bool { return is(valcv4.DeepP(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "DeepFieldV", func() bool { return is(valcv4.DeepFieldV(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "DeepFieldV", func() bool { return is(valcv4.DeepFieldV(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "Decoy", func() bool { return is(valcv4.Decoy(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Decoy", func() bool { return is(valcv4.Decoy(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "decoy", func() bool { return is(valcv4.decoy(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "decoy", func() bool { return is(valcv4.decoy(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "Own1", func() bool { return is(valcv4.Own1(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Own1", func() bool { return is(valcv4.Own1(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "Own2", func() bool { return is(valcv4.Own2(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Own2", func() bool { return is(valcv4.Own2(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "Own3", func() bool { return is(valcv4.Own3(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Own3", func() bool { return is(valcv4.Own3(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "Own4", func() bool { return is(valcv4.Own4(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "Own4", func() bool { return is(valcv4.Own4(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "own1", func() bool { return is(valcv4.own1(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "own1", func() bool { return is(valcv4.own1(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "own2", func() bool { return is(valcv4.own2(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "own2", func() bool { return is(valcv4.own2(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "own3", func() bool { return is(valcv4.own3(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "own3", func() bool { return is(valcv4.own3(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(&valcv4), "own4", func() bool { return is(valcv4.own4(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 embedded fields", val(valcv4), "own4", func() bool { return is(valcv4.own4(1)) }, five, func() bool { return is(valcv4.Deep(1)) }},
		{"chain of 4 fields", val(&valcv4), "Nope", nil, nil, nil},
		{"chain of 4 fields", val(&valcv4), "nope", nil, nil, nil},
		{"chain of 5 embedded fields", val(&valcv5), "Deep", func() bool { return is(valcv5.Deep(1)) }, five, func() bool { return is(valcv5.deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Deep", func() bool { return is(valcv5.Deep(1)) }, five, func() bool { return is(valcv5.deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "deep", func() bool { return is(valcv5.deep(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "deep", func() bool { return is(valcv5.deep(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "DeepP", func() bool { return is(valcv5.DeepP(1)) }, five, func() bool { return is(valcv5.deepP(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "DeepP", func() bool { return is(valcv5.DeepP(1)) }, five, func() bool { return is(valcv5.deepP(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "deepP", func() bool { return is(valcv5.deepP(1)) }, five, func() bool { return is(valcv5.DeepP(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "deepP", func() bool { return is(valcv5.deepP(1)) }, five, func() bool { return is(valcv5.DeepP(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "DeepFieldV", func() bool { return is(valcv5.DeepFieldV(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "DeepFieldV", func() bool { return is(valcv5.DeepFieldV(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "Decoy", func() bool { return is(valcv5.Decoy(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Decoy", func() bool { return is(valcv5.Decoy(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "decoy", func() bool { return is(valcv5.decoy(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "decoy", func() bool { return is(valcv5.decoy(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "Own1", func() bool { return is(valcv5.Own1(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Own1", func() bool { return is(valcv5.Own1(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "Own2", func() bool { return is(valcv5.Own2(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Own2", func() bool { return is(valcv5.Own2(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "Own4", func() bool { return is(valcv5.Own4(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Own4", func() bool { return is(valcv5.Own4(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "Own5", func() bool { return is(valcv5.Own5(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "Own5", func() bool { return is(valcv5.Own5(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "own1", func() bool { return is(valcv5.own1(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "own1", func() bool { return is(valcv5.own1(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "own2", func() bool { return is(valcv5.own2(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "own2", func() bool { return is(valcv5.own2(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "own4", func() bool { return is(valcv5.own4(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "own4", func() bool { return is(valcv5.own4(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(&valcv5), "own5", func() bool { return is(valcv5.own5(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 embedded fields", val(valcv5), "own5", func() bool { return is(valcv5.own5(1)) }, five, func() bool { return is(valcv5.Deep(1)) }},
		{"chain of 5 fields", val(&valcv5), "Nope", nil, nil, nil},
		{"chain of 5 fields", val(&valcv5), "nope", nil, nil, nil},
		{"chain of 6 embedded fields", val(&valcv6), "Deep", func() bool { return is(valcv6.Deep(1)) }, five, func() bool { return is(valcv6.deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Deep", func() bool { return is(valcv6.Deep(1)) }, five, func() bool { return is(valcv6.deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "deep", func() bool { return is(valcv6.deep(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "deep", func() bool { return is(valcv6.deep(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "DeepP", func() bool { return is(valcv6.DeepP(1)) }, five, func() bool { return is(valcv6.deepP(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "DeepP", func() bool { return is(valcv6.DeepP(1)) }, five, func() bool { return is(valcv6.deepP(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "deepP", func() bool { return is(valcv6.deepP(1)) }, five, func() bool { return is(valcv6.DeepP(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "deepP", func() bool { return is(valcv6.deepP(1)) }, five, func() bool { return is(valcv6.DeepP(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "DeepFieldV", func() bool { return is(valcv6.DeepFieldV(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "DeepFieldV", func() bool { return is(valcv6.DeepFieldV(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Decoy", func() bool { return is(valcv6.Decoy(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Decoy", func() bool { return is(valcv6.Decoy(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "decoy", func() bool { return is(valcv6.decoy(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "decoy", func() bool { return is(valcv6.decoy(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Own1", func() bool { return is(valcv6.Own1(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Own1", func() bool { return is(valcv6.Own1(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Own2", func() bool { return is(valcv6.Own2(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Own2", func() bool { return is(valcv6.Own2(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Own3", func() bool { return is(valcv6.Own3(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Own3", func() bool { return is(valcv6.Own3(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Own5", func() bool { return is(valcv6.Own5(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Own5", func() bool { return is(valcv6.Own5(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "Own6", func() bool { return is(valcv6.Own6(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "Own6", func() bool { return is(valcv6.Own6(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "own1", func() bool { return is(valcv6.own1(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "own1", func() bool { return is(valcv6.own1(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "own2", func() bool { return is(valcv6.own2(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "own2", func() bool { return is(valcv6.own2(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "own3", func() bool { return is(valcv6.own3(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "own3", func() bool { return is(valcv6.own3(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "own5", func() bool { return is(valcv6.own5(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "own5", func() bool { return is(valcv6.own5(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(&valcv6), "own6", func() bool { return is(valcv6.own6(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 embedded fields", val(valcv6), "own6", func() bool { return is(valcv6.own6(1)) }, five, func() bool { return is(valcv6.Deep(1)) }},
		{"chain of 6 fields", val(&valcv6), "Nope", nil, nil, nil},
		{"chain of 6 fields", val(&valcv6), "nope", nil, nil, nil},
		{"chain of 7 embedded fields", val(&valcv7), "Deep", func() bool { return is(valcv7.Deep(1)) }, five, func() bool { return is(valcv7.deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Deep", func() bool { return is(valcv7.Deep(1)) }, five, func() bool { return is(valcv7.deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "deep", func() bool { return is(valcv7.deep(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "deep", func() bool { return is(valcv7.deep(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "DeepP", func() bool { return is(valcv7.DeepP(1)) }, five, func() bool { return is(valcv7.deepP(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "DeepP", func() bool { return is(valcv7.DeepP(1)) }, five, func() bool { return is(valcv7.deepP(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "deepP", func() bool { return is(valcv7.deepP(1)) }, five, func() bool { return is(valcv7.DeepP(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "deepP", func() bool { return is(valcv7.deepP(1)) }, five, func() bool { return is(valcv7.DeepP(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "DeepFieldV", func() bool { return is(valcv7.DeepFieldV(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "DeepFieldV", func() bool { return is(valcv7.DeepFieldV(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Decoy", func() bool { return is(valcv7.Decoy(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Decoy", func() bool { return is(valcv7.Decoy(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "decoy", func() bool { return is(valcv7.decoy(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "decoy", func() bool { return is(valcv7.decoy(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Own1", func() bool { return is(valcv7.Own1(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Own1", func() bool { return is(valcv7.Own1(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Own2", func() bool { return is(valcv7.Own2(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Own2", func() bool { return is(valcv7.Own2(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Own3", func() bool { return is(valcv7.Own3(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Own3", func() bool { return is(valcv7.Own3(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Own6", func() bool { return is(valcv7.Own6(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Own6", func() bool { return is(valcv7.Own6(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "Own7", func() bool { return is(valcv7.Own7(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "Own7", func() bool { return is(valcv7.Own7(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "own1", func() bool { return is(valcv7.own1(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "own1", func() bool { return is(valcv7.own1(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "own2", func() bool { return is(valcv7.own2(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "own2", func() bool { return is(valcv7.own2(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "own3", func() bool { return is(valcv7.own3(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "own3", func() bool { return is(valcv7.own3(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "own6", func() bool { return is(valcv7.own6(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "own6", func() bool { return is(valcv7.own6(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(&valcv7), "own7", func() bool { return is(valcv7.own7(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 embedded fields", val(valcv7), "own7", func() bool { return is(valcv7.own7(1)) }, five, func() bool { return is(valcv7.Deep(1)) }},
		{"chain of 7 fields", val(&valcv7), "Nope", nil, nil, nil},
		{"chain of 7 fields", val(&valcv7), "nope", nil, nil, nil},
		{"chain of 8 embedded fields", val(&valcv8), "Deep", func() bool { return is(valcv8.Deep(1)) }, five, func() bool { return is(valcv8.deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Deep", func() bool { return is(valcv8.Deep(1)) }, five, func() bool { return is(valcv8.deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "deep", func() bool { return is(valcv8.deep(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "deep", func() bool { return is(valcv8.deep(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "DeepP", func() bool { return is(valcv8.DeepP(1)) }, five, func() bool { return is(valcv8.deepP(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "DeepP", func() bool { return is(valcv8.DeepP(1)) }, five, func() bool { return is(valcv8.deepP(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "deepP", func() bool { return is(valcv8.deepP(1)) }, five, func() bool { return is(valcv8.DeepP(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "deepP", func() bool { return is(valcv8.deepP(1)) }, five, func() bool { return is(valcv8.DeepP(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "DeepFieldV", func() bool { return is(valcv8.DeepFieldV(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "DeepFieldV", func() bool { return is(valcv8.DeepFieldV(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Decoy", func() bool { return is(valcv8.Decoy(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Decoy", func() bool { return is(valcv8.Decoy(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "decoy", func() bool { return is(valcv8.decoy(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "decoy", func() bool { return is(valcv8.decoy(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Own1", func() bool { return is(valcv8.Own1(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Own1", func() bool { return is(valcv8.Own1(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Own2", func() bool { return is(valcv8.Own2(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Own2", func() bool { return is(valcv8.Own2(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Own4", func() bool { return is(valcv8.Own4(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Own4", func() bool { return is(valcv8.Own4(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Own7", func() bool { return is(valcv8.Own7(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Own7", func() bool { return is(valcv8.Own7(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "Own8", func() bool { return is(valcv8.Own8(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "Own8", func() bool { return is(valcv8.Own8(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "own1", func() bool { return is(valcv8.own1(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "own1", func() bool { return is(valcv8.own1(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "own2", func() bool { return is(valcv8.own2(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "own2", func() bool { return is(valcv8.own2(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "own4", func() bool { return is(valcv8.own4(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "own4", func() bool { return is(valcv8.own4(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "own7", func() bool { return is(valcv8.own7(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "own7", func() bool { return is(valcv8.own7(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(&valcv8), "own8", func() bool { return is(valcv8.own8(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 embedded fields", val(valcv8), "own8", func() bool { return is(valcv8.own8(1)) }, five, func() bool { return is(valcv8.Deep(1)) }},
		{"chain of 8 fields", val(&valcv8), "Nope", nil, nil, nil},
		{"chain of 8 fields", val(&valcv8), "nope", nil, nil, nil},
		{"chain of 9 embedded fields", val(&valcv9), "Deep", func() bool { return is(valcv9.Deep(1)) }, five, func() bool { return is(valcv9.deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Deep", func() bool { return is(valcv9.Deep(1)) }, five, func() bool { return is(valcv9.deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "deep", func() bool { return is(valcv9.deep(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "deep", func() bool { return is(valcv9.deep(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "DeepP", func() bool { return is(valcv9.DeepP(1)) }, five, func() bool { return is(valcv9.deepP(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "DeepP", func() bool { return is(valcv9.DeepP(1)) }, five, func() bool { return is(valcv9.deepP(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "deepP", func() bool { return is(valcv9.deepP(1)) }, five, func() bool { return is(valcv9.DeepP(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "deepP", func() bool { return is(valcv9.deepP(1)) }, five, func() bool { return is(valcv9.DeepP(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "DeepFieldV", func() bool { return is(valcv9.DeepFieldV(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "DeepFieldV", func() bool { return is(valcv9.DeepFieldV(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Decoy", func() bool { return is(valcv9.Decoy(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Decoy", func() bool { return is(valcv9.Decoy(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "decoy", func() bool { return is(valcv9.decoy(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "decoy", func() bool { return is(valcv9.decoy(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Own1", func() bool { return is(valcv9.Own1(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Own1", func() bool { return is(valcv9.Own1(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Own2", func() bool { return is(valcv9.Own2(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Own2", func() bool { return is(valcv9.Own2(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Own4", func() bool { return is(valcv9.Own4(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Own4", func() bool { return is(valcv9.Own4(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Own8", func() bool { return is(valcv9.Own8(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Own8", func() bool { return is(valcv9.Own8(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "Own9", func() bool { return is(valcv9.Own9(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "Own9", func() bool { return is(valcv9.Own9(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "own1", func() bool { return is(valcv9.own1(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "own1", func() bool { return is(valcv9.own1(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "own2", func() bool { return is(valcv9.own2(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "own2", func() bool { return is(valcv9.own2(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "own4", func() bool { return is(valcv9.own4(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "own4", func() bool { return is(valcv9.own4(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "own8", func() bool { return is(valcv9.own8(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "own8", func() bool { return is(valcv9.own8(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(&valcv9), "own9", func() bool { return is(valcv9.own9(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 embedded fields", val(valcv9), "own9", func() bool { return is(valcv9.own9(1)) }, five, func() bool { return is(valcv9.Deep(1)) }},
		{"chain of 9 fields", val(&valcv9), "Nope", nil, nil, nil},
		{"chain of 9 fields", val(&valcv9), "nope", nil, nil, nil},
		{"chain of 10 embedded fields", val(&valcv10), "Deep", func() bool { return is(valcv10.Deep(1)) }, five, func() bool { return is(valcv10.deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Deep", func() bool { return is(valcv10.Deep(1)) }, five, func() bool { return is(valcv10.deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "deep", func() bool { return is(valcv10.deep(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "deep", func() bool { return is(valcv10.deep(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "DeepP", func() bool { return is(valcv10.DeepP(1)) }, five, func() bool { return is(valcv10.deepP(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "DeepP", func() bool { return is(valcv10.DeepP(1)) }, five, func() bool { return is(valcv10.deepP(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "deepP", func() bool { return is(valcv10.deepP(1)) }, five, func() bool { return is(valcv10.DeepP(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "deepP", func() bool { return is(valcv10.deepP(1)) }, five, func() bool { return is(valcv10.DeepP(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "DeepFieldV", func() bool { return is(valcv10.DeepFieldV(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "DeepFieldV", func() bool { return is(valcv10.DeepFieldV(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Decoy", func() bool { return is(valcv10.Decoy(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Decoy", func() bool { return is(valcv10.Decoy(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "decoy", func() bool { return is(valcv10.decoy(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "decoy", func() bool { return is(valcv10.decoy(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Own1", func() bool { return is(valcv10.Own1(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Own1", func() bool { return is(valcv10.Own1(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Own2", func() bool { return is(valcv10.Own2(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Own2", func() bool { return is(valcv10.Own2(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Own5", func() bool { return is(valcv10.Own5(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Own5", func() bool { return is(valcv10.Own5(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Own9", func() bool { return is(valcv10.Own9(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Own9", func() bool { return is(valcv10.Own9(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "Own10", func() bool { return is(valcv10.Own10(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "Own10", func() bool { return is(valcv10.Own10(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "own1", func() bool { return is(valcv10.own1(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "own1", func() bool { return is(valcv10.own1(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "own2", func() bool { return is(valcv10.own2(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "own2", func() bool { return is(valcv10.own2(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "own5", func() bool { return is(valcv10.own5(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "own5", func() bool { return is(valcv10.own5(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "own9", func() bool { return is(valcv10.own9(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "own9", func() bool { return is(valcv10.own9(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(&valcv10), "own10", func() bool { return is(valcv10.own10(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 embedded fields", val(valcv10), "own10", func() bool { return is(valcv10.own10(1)) }, five, func() bool { return is(valcv10.Deep(1)) }},
		{"chain of 10 fields", val(&valcv10), "Nope", nil, nil, nil},
		{"chain of 10 fields", val(&valcv10), "nope", nil, nil, nil},
		{"chain of 11 embedded fields", val(&valcv11), "Deep", func() bool { return is(valcv11.Deep(1)) }, five, func() bool { return is(valcv11.deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Deep", func() bool { return is(valcv11.Deep(1)) }, five, func() bool { return is(valcv11.deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "deep", func() bool { return is(valcv11.deep(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "deep", func() bool { return is(valcv11.deep(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "DeepP", func() bool { return is(valcv11.DeepP(1)) }, five, func() bool { return is(valcv11.deepP(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "DeepP", func() bool { return is(valcv11.DeepP(1)) }, five, func() bool { return is(valcv11.deepP(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "deepP", func() bool { return is(valcv11.deepP(1)) }, five, func() bool { return is(valcv11.DeepP(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "deepP", func() bool { return is(valcv11.deepP(1)) }, five, func() bool { return is(valcv11.DeepP(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "DeepFieldV", func() bool { return is(valcv11.DeepFieldV(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "DeepFieldV", func() bool { return is(valcv11.DeepFieldV(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Decoy", func() bool { return is(valcv11.Decoy(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Decoy", func() bool { return is(valcv11.Decoy(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "decoy", func() bool { return is(valcv11.decoy(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "decoy", func() bool { return is(valcv11.decoy(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Own1", func() bool { return is(valcv11.Own1(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Own1", func() bool { return is(valcv11.Own1(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Own2", func() bool { return is(valcv11.Own2(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Own2", func() bool { return is(valcv11.Own2(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Own5", func() bool { return is(valcv11.Own5(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Own5", func() bool { return is(valcv11.Own5(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Own10", func() bool { return is(valcv11.Own10(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Own10", func() bool { return is(valcv11.Own10(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "Own11", func() bool { return is(valcv11.Own11(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "Own11", func() bool { return is(valcv11.Own11(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "own1", func() bool { return is(valcv11.own1(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "own1", func() bool { return is(valcv11.own1(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "own2", func() bool { return is(valcv11.own2(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "own2", func() bool { return is(valcv11.own2(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "own5", func() bool { return is(valcv11.own5(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "own5", func() bool { return is(valcv11.own5(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "own10", func() bool { return is(valcv11.own10(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "own10", func() bool { return is(valcv11.own10(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(&valcv11), "own11", func() bool { return is(valcv11.own11(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 embedded fields", val(valcv11), "own11", func() bool { return is(valcv11.own11(1)) }, five, func() bool { return is(valcv11.Deep(1)) }},
		{"chain of 11 fields", val(&valcv11), "Nope", nil, nil, nil},
		{"chain of 11 fields", val(&valcv11), "nope", nil, nil, nil},
		{"chain of 12 embedded fields", val(&valcv12), "Deep", func() bool { return is(valcv12.Deep(1)) }, five, func() bool { return is(valcv12.deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Deep", func() bool { return is(valcv12.Deep(1)) }, five, func() bool { return is(valcv12.deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "deep", func() bool { return is(valcv12.deep(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "deep", func() bool { return is(valcv12.deep(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "DeepP", func() bool { return is(valcv12.DeepP(1)) }, five, func() bool { return is(valcv12.deepP(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "DeepP", func() bool { return is(valcv12.DeepP(1)) }, five, func() bool { return is(valcv12.deepP(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "deepP", func() bool { return is(valcv12.deepP(1)) }, five, func() bool { return is(valcv12.DeepP(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "deepP", func() bool { return is(valcv12.deepP(1)) }, five, func() bool { return is(valcv12.DeepP(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "DeepFieldV", func() bool { return is(valcv12.DeepFieldV(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "DeepFieldV", func() bool { return is(valcv12.DeepFieldV(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Decoy", func() bool { return is(valcv12.Decoy(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Decoy", func() bool { return is(valcv12.Decoy(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "decoy", func() bool { return is(valcv12.decoy(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "decoy", func() bool { return is(valcv12.decoy(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Own1", func() bool { return is(valcv12.Own1(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Own1", func() bool { return is(valcv12.Own1(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Own2", func() bool { return is(valcv12.Own2(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Own2", func() bool { return is(valcv12.Own2(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Own6", func() bool { return is(valcv12.Own6(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Own6", func() bool { return is(valcv12.Own6(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Own11", func() bool { return is(valcv12.Own11(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Own11", func() bool { return is(valcv12.Own11(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "Own12", func() bool { return is(valcv12.Own12(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "Own12", func() bool { return is(valcv12.Own12(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "own1", func() bool { return is(valcv12.own1(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "own1", func() bool { return is(valcv12.own1(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "own2", func() bool { return is(valcv12.own2(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "own2", func() bool { return is(valcv12.own2(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "own6", func() bool { return is(valcv12.own6(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "own6", func() bool { return is(valcv12.own6(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "own11", func() bool { return is(valcv12.own11(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "own11", func() bool { return is(valcv12.own11(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(&valcv12), "own12", func() bool { return is(valcv12.own12(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 embedded fields", val(valcv12), "own12", func() bool { return is(valcv12.own12(1)) }, five, func() bool { return is(valcv12.Deep(1)) }},
		{"chain of 12 fields", val(&valcv12), "Nope", nil, nil, nil},
		{"chain of 12 fields", val(&valcv12), "nope", nil, nil, nil},
		{"chain of 13 embedded fields", val(&valcv13), "Deep", func() bool { return is(valcv13.Deep(1)) }, five, func() bool { return is(valcv13.deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Deep", func() bool { return is(valcv13.Deep(1)) }, five, func() bool { return is(valcv13.deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "deep", func() bool { return is(valcv13.deep(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "deep", func() bool { return is(valcv13.deep(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "DeepP", func() bool { return is(valcv13.DeepP(1)) }, five, func() bool { return is(valcv13.deepP(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "DeepP", func() bool { return is(valcv13.DeepP(1)) }, five, func() bool { return is(valcv13.deepP(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "deepP", func() bool { return is(valcv13.deepP(1)) }, five, func() bool { return is(valcv13.DeepP(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "deepP", func() bool { return is(valcv13.deepP(1)) }, five, func() bool { return is(valcv13.DeepP(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "DeepFieldV", func() bool { return is(valcv13.DeepFieldV(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "DeepFieldV", func() bool { return is(valcv13.DeepFieldV(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Decoy", func() bool { return is(valcv13.Decoy(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Decoy", func() bool { return is(valcv13.Decoy(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "decoy", func() bool { return is(valcv13.decoy(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "decoy", func() bool { return is(valcv13.decoy(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Own1", func() bool { return is(valcv13.Own1(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Own1", func() bool { return is(valcv13.Own1(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Own2", func() bool { return is(valcv13.Own2(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Own2", func() bool { return is(valcv13.Own2(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Own6", func() bool { return is(valcv13.Own6(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Own6", func() bool { return is(valcv13.Own6(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Own12", func() bool { return is(valcv13.Own12(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Own12", func() bool { return is(valcv13.Own12(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "Own13", func() bool { return is(valcv13.Own13(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "Own13", func() bool { return is(valcv13.Own13(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "own1", func() bool { return is(valcv13.own1(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "own1", func() bool { return is(valcv13.own1(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "own2", func() bool { return is(valcv13.own2(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "own2", func() bool { return is(valcv13.own2(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "own6", func() bool { return is(valcv13.own6(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "own6", func() bool { return is(valcv13.own6(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "own12", func() bool { return is(valcv13.own12(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "own12", func() bool { return is(valcv13.own12(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(&valcv13), "own13", func() bool { return is(valcv13.own13(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 embedded fields", val(valcv13), "own13", func() bool { return is(valcv13.own13(1)) }, five, func() bool { return is(valcv13.Deep(1)) }},
		{"chain of 13 fields", val(&valcv13), "Nope", nil, nil, nil},
		{"chain of 13 fields", val(&valcv13), "nope", nil, nil, nil},
		{"chain of 14 embedded fields", val(&valcv14), "Deep", func() bool { return is(valcv14.Deep(1)) }, five, func() bool { return is(valcv14.deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Deep", func() bool { return is(valcv14.Deep(1)) }, five, func() bool { return is(valcv14.deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "deep", func() bool { return is(valcv14.deep(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "deep", func() bool { return is(valcv14.deep(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "DeepP", func() bool { return is(valcv14.DeepP(1)) }, five, func() bool { return is(valcv14.deepP(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "DeepP", func() bool { return is(valcv14.DeepP(1)) }, five, func() bool { return is(valcv14.deepP(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "deepP", func() bool { return is(valcv14.deepP(1)) }, five, func() bool { return is(valcv14.DeepP(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "deepP", func() bool { return is(valcv14.deepP(1)) }, five, func() bool { return is(valcv14.DeepP(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "DeepFieldV", func() bool { return is(valcv14.DeepFieldV(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "DeepFieldV", func() bool { return is(valcv14.DeepFieldV(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Decoy", func() bool { return is(valcv14.Decoy(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Decoy", func() bool { return is(valcv14.Decoy(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "decoy", func() bool { return is(valcv14.decoy(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "decoy", func() bool { return is(valcv14.decoy(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Own1", func() bool { return is(valcv14.Own1(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Own1", func() bool { return is(valcv14.Own1(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Own2", func() bool { return is(valcv14.Own2(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Own2", func() bool { return is(valcv14.Own2(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Own7", func() bool { return is(valcv14.Own7(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Own7", func() bool { return is(valcv14.Own7(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Own13", func() bool { return is(valcv14.Own13(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Own13", func() bool { return is(valcv14.Own13(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "Own14", func() bool { return is(valcv14.Own14(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "Own14", func() bool { return is(valcv14.Own14(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "own1", func() bool { return is(valcv14.own1(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "own1", func() bool { return is(valcv14.own1(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "own2", func() bool { return is(valcv14.own2(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "own2", func() bool { return is(valcv14.own2(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "own7", func() bool { return is(valcv14.own7(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "own7", func() bool { return is(valcv14.own7(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "own13", func() bool { return is(valcv14.own13(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "own13", func() bool { return is(valcv14.own13(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(&valcv14), "own14", func() bool { return is(valcv14.own14(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 embedded fields", val(valcv14), "own14", func() bool { return is(valcv14.own14(1)) }, five, func() bool { return is(valcv14.Deep(1)) }},
		{"chain of 14 fields", val(&valcv14), "Nope", nil, nil, nil},
		{"chain of 14 fields", val(&valcv14), "nope", nil, nil, nil},
		{"chain of 15 embedded fields", val(&valcv15), "Deep", func() bool { return is(valcv15.Deep(1)) }, five, func() bool { return is(valcv15.deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Deep", func() bool { return is(valcv15.Deep(1)) }, five, func() bool { return is(valcv15.deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "deep", func() bool { return is(valcv15.deep(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "deep", func() bool { return is(valcv15.deep(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "DeepP", func() bool { return is(valcv15.DeepP(1)) }, five, func() bool { return is(valcv15.deepP(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "DeepP", func() bool { return is(valcv15.DeepP(1)) }, five, func() bool { return is(valcv15.deepP(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "deepP", func() bool { return is(valcv15.deepP(1)) }, five, func() bool { return is(valcv15.DeepP(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "deepP", func() bool { return is(valcv15.deepP(1)) }, five, func() bool { return is(valcv15.DeepP(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "DeepFieldV", func() bool { return is(valcv15.DeepFieldV(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "DeepFieldV", func() bool { return is(valcv15.DeepFieldV(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Decoy", func() bool { return is(valcv15.Decoy(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Decoy", func() bool { return is(valcv15.Decoy(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "decoy", func() bool { return is(valcv15.decoy(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "decoy", func() bool { return is(valcv15.decoy(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Own1", func() bool { return is(valcv15.Own1(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Own1", func() bool { return is(valcv15.Own1(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Own2", func() bool { return is(valcv15.Own2(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Own2", func() bool { return is(valcv15.Own2(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Own7", func() bool { return is(valcv15.Own7(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Own7", func() bool { return is(valcv15.Own7(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Own14", func() bool { return is(valcv15.Own14(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Own14", func() bool { return is(valcv15.Own14(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "Own15", func() bool { return is(valcv15.Own15(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "Own15", func() bool { return is(valcv15.Own15(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "own1", func() bool { return is(valcv15.own1(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "own1", func() bool { return is(valcv15.own1(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "own2", func() bool { return is(valcv15.own2(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "own2", func() bool { return is(valcv15.own2(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "own7", func() bool { return is(valcv15.own7(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "own7", func() bool { return is(valcv15.own7(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "own14", func() bool { return is(valcv15.own14(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "own14", func() bool { return is(valcv15.own14(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(&valcv15), "own15", func() bool { return is(valcv15.own15(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 embedded fields", val(valcv15), "own15", func() bool { return is(valcv15.own15(1)) }, five, func() bool { return is(valcv15.Deep(1)) }},
		{"chain of 15 fields", val(&valcv15), "Nope", nil, nil, nil},
		{"chain of 15 fields", val(&valcv15), "nope", nil, nil, nil},
		{"chain of 16 embedded fields", val(&valcv16), "Deep", func() bool { return is(valcv16.Deep(1)) }, five, func() bool { return is(valcv16.deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Deep", func() bool { return is(valcv16.Deep(1)) }, five, func() bool { return is(valcv16.deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "deep", func() bool { return is(valcv16.deep(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "deep", func() bool { return is(valcv16.deep(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "DeepP", func() bool { return is(valcv16.DeepP(1)) }, five, func() bool { return is(valcv16.deepP(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "DeepP", func() bool { return is(valcv16.DeepP(1)) }, five, func() bool { return is(valcv16.deepP(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "deepP", func() bool { return is(valcv16.deepP(1)) }, five, func() bool { return is(valcv16.DeepP(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "deepP", func() bool { return is(valcv16.deepP(1)) }, five, func() bool { return is(valcv16.DeepP(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "DeepFieldV", func() bool { return is(valcv16.DeepFieldV(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "DeepFieldV", func() bool { return is(valcv16.DeepFieldV(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Decoy", func() bool { return is(valcv16.Decoy(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Decoy", func() bool { return is(valcv16.Decoy(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "decoy", func() bool { return is(valcv16.decoy(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "decoy", func() bool { return is(valcv16.decoy(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Own1", func() bool { return is(valcv16.Own1(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Own1", func() bool { return is(valcv16.Own1(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Own2", func() bool { return is(valcv16.Own2(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Own2", func() bool { return is(valcv16.Own2(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Own8", func() bool { return is(valcv16.Own8(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Own8", func() bool { return is(valcv16.Own8(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Own15", func() bool { return is(valcv16.Own15(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Own15", func() bool { return is(valcv16.Own15(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "Own16", func() bool { return is(valcv16.Own16(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "Own16", func() bool { return is(valcv16.Own16(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "own1", func() bool { return is(valcv16.own1(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "own1", func() bool { return is(valcv16.own1(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "own2", func() bool { return is(valcv16.own2(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "own2", func() bool { return is(valcv16.own2(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "own8", func() bool { return is(valcv16.own8(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "own8", func() bool { return is(valcv16.own8(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "own15", func() bool { return is(valcv16.own15(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "own15", func() bool { return is(valcv16.own15(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(&valcv16), "own16", func() bool { return is(valcv16.own16(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 embedded fields", val(valcv16), "own16", func() bool { return is(valcv16.own16(1)) }, five, func() bool { return is(valcv16.Deep(1)) }},
		{"chain of 16 fields", val(&valcv16), "Nope", nil, nil, nil},
		{"chain of 16 fields", val(&valcv16), "nope", nil, nil, nil},
		{"chain of 17 embedded fields", val(&valcv17), "Deep", func() bool { return is(valcv17.Deep(1)) }, five, func() bool { return is(valcv17.deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Deep", func() bool { return is(valcv17.Deep(1)) }, five, func() bool { return is(valcv17.deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "deep", func() bool { return is(valcv17.deep(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "deep", func() bool { return is(valcv17.deep(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "DeepP", func() bool { return is(valcv17.DeepP(1)) }, five, func() bool { return is(valcv17.deepP(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "DeepP", func() bool { return is(valcv17.DeepP(1)) }, five, func() bool { return is(valcv17.deepP(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "deepP", func() bool { return is(valcv17.deepP(1)) }, five, func() bool { return is(valcv17.DeepP(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "deepP", func() bool { return is(valcv17.deepP(1)) }, five, func() bool { return is(valcv17.DeepP(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "DeepFieldV", func() bool { return is(valcv17.DeepFieldV(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "DeepFieldV", func() bool { return is(valcv17.DeepFieldV(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Decoy", func() bool { return is(valcv17.Decoy(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Decoy", func() bool { return is(valcv17.Decoy(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "decoy", func() bool { return is(valcv17.decoy(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "decoy", func() bool { return is(valcv17.decoy(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Own1", func() bool { return is(valcv17.Own1(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Own1", func() bool { return is(valcv17.Own1(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Own2", func() bool { return is(valcv17.Own2(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Own2", func() bool { return is(valcv17.Own2(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Own8", func() bool { return is(valcv17.Own8(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Own8", func() bool { return is(valcv17.Own8(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Own16", func() bool { return is(valcv17.Own16(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Own16", func() bool { return is(valcv17.Own16(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "Own17", func() bool { return is(valcv17.Own17(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "Own17", func() bool { return is(valcv17.Own17(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "own1", func() bool { return is(valcv17.own1(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "own1", func() bool { return is(valcv17.own1(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "own2", func() bool { return is(valcv17.own2(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "own2", func() bool { return is(valcv17.own2(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "own8", func() bool { return is(valcv17.own8(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "own8", func() bool { return is(valcv17.own8(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "own16", func() bool { return is(valcv17.own16(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "own16", func() bool { return is(valcv17.own16(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(&valcv17), "own17", func() bool { return is(valcv17.own17(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 embedded fields", val(valcv17), "own17", func() bool { return is(valcv17.own17(1)) }, five, func() bool { return is(valcv17.Deep(1)) }},
		{"chain of 17 fields", val(&valcv17), "Nope", nil, nil, nil},
		{"chain of 17 fields", val(&valcv17), "nope", nil, nil, nil},
		{"chain of 18 embedded fields", val(&valcv18), "Deep", func() bool { return is(valcv18.Deep(1)) }, five, func() bool { return is(valcv18.deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Deep", func() bool { return is(valcv18.Deep(1)) }, five, func() bool { return is(valcv18.deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "deep", func() bool { return is(valcv18.deep(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "deep", func() bool { return is(valcv18.deep(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "DeepP", func() bool { return is(valcv18.DeepP(1)) }, five, func() bool { return is(valcv18.deepP(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "DeepP", func() bool { return is(valcv18.DeepP(1)) }, five, func() bool { return is(valcv18.deepP(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "deepP", func() bool { return is(valcv18.deepP(1)) }, five, func() bool { return is(valcv18.DeepP(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "deepP", func() bool { return is(valcv18.deepP(1)) }, five, func() bool { return is(valcv18.DeepP(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "DeepFieldV", func() bool { return is(valcv18.DeepFieldV(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "DeepFieldV", func() bool { return is(valcv18.DeepFieldV(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Decoy", func() bool { return is(valcv18.Decoy(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Decoy", func() bool { return is(valcv18.Decoy(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "decoy", func() bool { return is(valcv18.decoy(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "decoy", func() bool { return is(valcv18.decoy(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Own1", func() bool { return is(valcv18.Own1(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Own1", func() bool { return is(valcv18.Own1(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Own2", func() bool { return is(valcv18.Own2(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Own2", func() bool { return is(valcv18.Own2(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Own9", func() bool { return is(valcv18.Own9(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Own9", func() bool { return is(valcv18.Own9(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Own17", func() bool { return is(valcv18.Own17(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Own17", func() bool { return is(valcv18.Own17(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "Own18", func() bool { return is(valcv18.Own18(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "Own18", func() bool { return is(valcv18.Own18(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "own1", func() bool { return is(valcv18.own1(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "own1", func() bool { return is(valcv18.own1(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "own2", func() bool { return is(valcv18.own2(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "own2", func() bool { return is(valcv18.own2(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "own9", func() bool { return is(valcv18.own9(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "own9", func() bool { return is(valcv18.own9(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "own17", func() bool { return is(valcv18.own17(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "own17", func() bool { return is(valcv18.own17(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(&valcv18), "own18", func() bool { return is(valcv18.own18(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 embedded fields", val(valcv18), "own18", func() bool { return is(valcv18.own18(1)) }, five, func() bool { return is(valcv18.Deep(1)) }},
		{"chain of 18 fields", val(&valcv18), "Nope", nil, nil, nil},
		{"chain of 18 fields", val(&valcv18), "nope", nil, nil, nil},
		{"chain of 19 embedded fields", val(&valcv19), "Deep", func() bool { return is(valcv19.Deep(1)) }, five, func() bool { return is(valcv19.deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Deep", func() bool { return is(valcv19.Deep(1)) }, five, func() bool { return is(valcv19.deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "deep", func() bool { return is(valcv19.deep(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "deep", func() bool { return is(valcv19.deep(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "DeepP", func() bool { return is(valcv19.DeepP(1)) }, five, func() bool { return is(valcv19.deepP(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "DeepP", func() bool { return is(valcv19.DeepP(1)) }, five, func() bool { return is(valcv19.deepP(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "deepP", func() bool { return is(valcv19.deepP(1)) }, five, func() bool { return is(valcv19.DeepP(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "deepP", func() bool { return is(valcv19.deepP(1)) }, five, func() bool { return is(valcv19.DeepP(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "DeepFieldV", func() bool { return is(valcv19.DeepFieldV(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "DeepFieldV", func() bool { return is(valcv19.DeepFieldV(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Decoy", func() bool { return is(valcv19.Decoy(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Decoy", func() bool { return is(valcv19.Decoy(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "decoy", func() bool { return is(valcv19.decoy(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "decoy", func() bool { return is(valcv19.decoy(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Own1", func() bool { return is(valcv19.Own1(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Own1", func() bool { return is(valcv19.Own1(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Own2", func() bool { return is(valcv19.Own2(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Own2", func() bool { return is(valcv19.Own2(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Own9", func() bool { return is(valcv19.Own9(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Own9", func() bool { return is(valcv19.Own9(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Own18", func() bool { return is(valcv19.Own18(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Own18", func() bool { return is(valcv19.Own18(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "Own19", func() bool { return is(valcv19.Own19(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "Own19", func() bool { return is(valcv19.Own19(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "own1", func() bool { return is(valcv19.own1(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "own1", func() bool { return is(valcv19.own1(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "own2", func() bool { return is(valcv19.own2(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "own2", func() bool { return is(valcv19.own2(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "own9", func() bool { return is(valcv19.own9(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "own9", func() bool { return is(valcv19.own9(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "own18", func() bool { return is(valcv19.own18(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "own18", func() bool { return is(valcv19.own18(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(&valcv19), "own19", func() bool { return is(valcv19.own19(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 embedded fields", val(valcv19), "own19", func() bool { return is(valcv19.own19(1)) }, five, func() bool { return is(valcv19.Deep(1)) }},
		{"chain of 19 fields", val(&valcv19), "Nope", nil, nil, nil},
		{"chain of 19 fields", val(&valcv19), "nope", nil, nil, nil},
		{"chain of 20 embedded fields", val(&valcv20), "Deep", func() bool { return is(valcv20.Deep(1)) }, five, func() bool { return is(valcv20.deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Deep", func() bool { return is(valcv20.Deep(1)) }, five, func() bool { return is(valcv20.deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "deep", func() bool { return is(valcv20.deep(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "deep", func() bool { return is(valcv20.deep(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "DeepP", func() bool { return is(valcv20.DeepP(1)) }, five, func() bool { return is(valcv20.deepP(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "DeepP", func() bool { return is(valcv20.DeepP(1)) }, five, func() bool { return is(valcv20.deepP(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "deepP", func() bool { return is(valcv20.deepP(1)) }, five, func() bool { return is(valcv20.DeepP(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "deepP", func() bool { return is(valcv20.deepP(1)) }, five, func() bool { return is(valcv20.DeepP(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "DeepFieldV", func() bool { return is(valcv20.DeepFieldV(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "DeepFieldV", func() bool { return is(valcv20.DeepFieldV(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Decoy", func() bool { return is(valcv20.Decoy(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Decoy", func() bool { return is(valcv20.Decoy(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "decoy", func() bool { return is(valcv20.decoy(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "decoy", func() bool { return is(valcv20.decoy(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Own1", func() bool { return is(valcv20.Own1(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Own1", func() bool { return is(valcv20.Own1(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Own2", func() bool { return is(valcv20.Own2(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Own2", func() bool { return is(valcv20.Own2(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Own10", func() bool { return is(valcv20.Own10(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Own10", func() bool { return is(valcv20.Own10(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Own19", func() bool { return is(valcv20.Own19(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Own19", func() bool { return is(valcv20.Own19(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "Own20", func() bool { return is(valcv20.Own20(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "Own20", func() bool { return is(valcv20.Own20(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "own1", func() bool { return is(valcv20.own1(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "own1", func() bool { return is(valcv20.own1(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "own2", func() bool { return is(valcv20.own2(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "own2", func() bool { return is(valcv20.own2(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "own10", func() bool { return is(valcv20.own10(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "own10", func() bool { return is(valcv20.own10(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "own19", func() bool { return is(valcv20.own19(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "own19", func() bool { return is(valcv20.own19(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(&valcv20), "own20", func() bool { return is(valcv20.own20(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 embedded fields", val(valcv20), "own20", func() bool { return is(valcv20.own20(1)) }, five, func() bool { return is(valcv20.Deep(1)) }},
		{"chain of 20 fields", val(&valcv20), "Nope", nil, nil, nil},
		{"chain of 20 fields", val(&valcv20), "nope", nil, nil, nil},
		{"chain of 21 embedded fields", val(&valcv21), "Deep", func() bool { return is(valcv21.Deep(1)) }, five, func() bool { return is(valcv21.deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Deep", func() bool { return is(valcv21.Deep(1)) }, five, func() bool { return is(valcv21.deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "deep", func() bool { return is(valcv21.deep(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "deep", func() bool { return is(valcv21.deep(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "DeepP", func() bool { return is(valcv21.DeepP(1)) }, five, func() bool { return is(valcv21.deepP(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "DeepP", func() bool { return is(valcv21.DeepP(1)) }, five, func() bool { return is(valcv21.deepP(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "deepP", func() bool { return is(valcv21.deepP(1)) }, five, func() bool { return is(valcv21.DeepP(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "deepP", func() bool { return is(valcv21.deepP(1)) }, five, func() bool { return is(valcv21.DeepP(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "DeepFieldV", func() bool { return is(valcv21.DeepFieldV(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "DeepFieldV", func() bool { return is(valcv21.DeepFieldV(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Decoy", func() bool { return is(valcv21.Decoy(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Decoy", func() bool { return is(valcv21.Decoy(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "decoy", func() bool { return is(valcv21.decoy(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "decoy", func() bool { return is(valcv21.decoy(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Own1", func() bool { return is(valcv21.Own1(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Own1", func() bool { return is(valcv21.Own1(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Own2", func() bool { return is(valcv21.Own2(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Own2", func() bool { return is(valcv21.Own2(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Own10", func() bool { return is(valcv21.Own10(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Own10", func() bool { return is(valcv21.Own10(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Own20", func() bool { return is(valcv21.Own20(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Own20", func() bool { return is(valcv21.Own20(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "Own21", func() bool { return is(valcv21.Own21(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "Own21", func() bool { return is(valcv21.Own21(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "own1", func() bool { return is(valcv21.own1(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "own1", func() bool { return is(valcv21.own1(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "own2", func() bool { return is(valcv21.own2(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "own2", func() bool { return is(valcv21.own2(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "own10", func() bool { return is(valcv21.own10(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "own10", func() bool { return is(valcv21.own10(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "own20", func() bool { return is(valcv21.own20(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "own20", func() bool { return is(valcv21.own20(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(&valcv21), "own21", func() bool { return is(valcv21.own21(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 embedded fields", val(valcv21), "own21", func() bool { return is(valcv21.own21(1)) }, five, func() bool { return is(valcv21.Deep(1)) }},
		{"chain of 21 fields", val(&valcv21), "Nope", nil, nil, nil},
		{"chain of 21 fields", val(&valcv21), "nope", nil, nil, nil},
		{"chain of 22 embedded fields", val(&valcv22), "Deep", func() bool { return is(valcv22.Deep(1)) }, five, func() bool { return is(valcv22.deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Deep", func() bool { return is(valcv22.Deep(1)) }, five, func() bool { return is(valcv22.deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "deep", func() bool { return is(valcv22.deep(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "deep", func() bool { return is(valcv22.deep(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "DeepP", func() bool { return is(valcv22.DeepP(1)) }, five, func() bool { return is(valcv22.deepP(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "DeepP", func() bool { return is(valcv22.DeepP(1)) }, five, func() bool { return is(valcv22.deepP(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "deepP", func() bool { return is(valcv22.deepP(1)) }, five, func() bool { return is(valcv22.DeepP(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "deepP", func() bool { return is(valcv22.deepP(1)) }, five, func() bool { return is(valcv22.DeepP(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "DeepFieldV", func() bool { return is(valcv22.DeepFieldV(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "DeepFieldV", func() bool { return is(valcv22.DeepFieldV(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Decoy", func() bool { return is(valcv22.Decoy(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Decoy", func() bool { return is(valcv22.Decoy(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "decoy", func() bool { return is(valcv22.decoy(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "decoy", func() bool { return is(valcv22.decoy(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Own1", func() bool { return is(valcv22.Own1(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Own1", func() bool { return is(valcv22.Own1(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Own2", func() bool { return is(valcv22.Own2(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Own2", func() bool { return is(valcv22.Own2(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Own11", func() bool { return is(valcv22.Own11(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Own11", func() bool { return is(valcv22.Own11(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Own21", func() bool { return is(valcv22.Own21(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Own21", func() bool { return is(valcv22.Own21(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "Own22", func() bool { return is(valcv22.Own22(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "Own22", func() bool { return is(valcv22.Own22(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "own1", func() bool { return is(valcv22.own1(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "own1", func() bool { return is(valcv22.own1(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "own2", func() bool { return is(valcv22.own2(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "own2", func() bool { return is(valcv22.own2(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "own11", func() bool { return is(valcv22.own11(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "own11", func() bool { return is(valcv22.own11(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "own21", func() bool { return is(valcv22.own21(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "own21", func() bool { return is(valcv22.own21(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(&valcv22), "own22", func() bool { return is(valcv22.own22(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 embedded fields", val(valcv22), "own22", func() bool { return is(valcv22.own22(1)) }, five, func() bool { return is(valcv22.Deep(1)) }},
		{"chain of 22 fields", val(&valcv22), "Nope", nil, nil, nil},
		{"chain of 22 fields", val(&valcv22), "nope", nil, nil, nil},
		{"chain of 23 embedded fields", val(&valcv23), "Deep", func() bool { return is(valcv23.Deep(1)) }, five, func() bool { return is(valcv23.deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Deep", func() bool { return is(valcv23.Deep(1)) }, five, func() bool { return is(valcv23.deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "deep", func() bool { return is(valcv23.deep(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "deep", func() bool { return is(valcv23.deep(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "DeepP", func() bool { return is(valcv23.DeepP(1)) }, five, func() bool { return is(valcv23.deepP(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "DeepP", func() bool { return is(valcv23.DeepP(1)) }, five, func() bool { return is(valcv23.deepP(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "deepP", func() bool { return is(valcv23.deepP(1)) }, five, func() bool { return is(valcv23.DeepP(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "deepP", func() bool { return is(valcv23.deepP(1)) }, five, func() bool { return is(valcv23.DeepP(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "DeepFieldV", func() bool { return is(valcv23.DeepFieldV(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "DeepFieldV", func() bool { return is(valcv23.DeepFieldV(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Decoy", func() bool { return is(valcv23.Decoy(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Decoy", func() bool { return is(valcv23.Decoy(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "decoy", func() bool { return is(valcv23.decoy(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "decoy", func() bool { return is(valcv23.decoy(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Own1", func() bool { return is(valcv23.Own1(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Own1", func() bool { return is(valcv23.Own1(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Own2", func() bool { return is(valcv23.Own2(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Own2", func() bool { return is(valcv23.Own2(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Own11", func() bool { return is(valcv23.Own11(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Own11", func() bool { return is(valcv23.Own11(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Own22", func() bool { return is(valcv23.Own22(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Own22", func() bool { return is(valcv23.Own22(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "Own23", func() bool { return is(valcv23.Own23(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "Own23", func() bool { return is(valcv23.Own23(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "own1", func() bool { return is(valcv23.own1(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "own1", func() bool { return is(valcv23.own1(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "own2", func() bool { return is(valcv23.own2(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "own2", func() bool { return is(valcv23.own2(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "own11", func() bool { return is(valcv23.own11(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "own11", func() bool { return is(valcv23.own11(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "own22", func() bool { return is(valcv23.own22(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "own22", func() bool { return is(valcv23.own22(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(&valcv23), "own23", func() bool { return is(valcv23.own23(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 embedded fields", val(valcv23), "own23", func() bool { return is(valcv23.own23(1)) }, five, func() bool { return is(valcv23.Deep(1)) }},
		{"chain of 23 fields", val(&valcv23), "Nope", nil, nil, nil},
		{"chain of 23 fields", val(&valcv23), "nope", nil, nil, nil},
		{"chain of 24 embedded fields", val(&valcv24), "Deep", func() bool { return is(valcv24.Deep(1)) }, five, func() bool { return is(valcv24.deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Deep", func() bool { return is(valcv24.Deep(1)) }, five, func() bool { return is(valcv24.deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "deep", func() bool { return is(valcv24.deep(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "deep", func() bool { return is(valcv24.deep(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "DeepP", func() bool { return is(valcv24.DeepP(1)) }, five, func() bool { return is(valcv24.deepP(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "DeepP", func() bool { return is(valcv24.DeepP(1)) }, five, func() bool { return is(valcv24.deepP(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "deepP", func() bool { return is(valcv24.deepP(1)) }, five, func() bool { return is(valcv24.DeepP(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "deepP", func() bool { return is(valcv24.deepP(1)) }, five, func() bool { return is(valcv24.DeepP(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "DeepFieldV", func() bool { return is(valcv24.DeepFieldV(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "DeepFieldV", func() bool { return is(valcv24.DeepFieldV(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Decoy", func() bool { return is(valcv24.Decoy(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Decoy", func() bool { return is(valcv24.Decoy(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "decoy", func() bool { return is(valcv24.decoy(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "decoy", func() bool { return is(valcv24.decoy(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Own1", func() bool { return is(valcv24.Own1(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Own1", func() bool { return is(valcv24.Own1(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Own2", func() bool { return is(valcv24.Own2(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Own2", func() bool { return is(valcv24.Own2(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Own12", func() bool { return is(valcv24.Own12(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Own12", func() bool { return is(valcv24.Own12(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Own23", func() bool { return is(valcv24.Own23(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Own23", func() bool { return is(valcv24.Own23(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "Own24", func() bool { return is(valcv24.Own24(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "Own24", func() bool { return is(valcv24.Own24(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "own1", func() bool { return is(valcv24.own1(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "own1", func() bool { return is(valcv24.own1(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "own2", func() bool { return is(valcv24.own2(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "own2", func() bool { return is(valcv24.own2(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "own12", func() bool { return is(valcv24.own12(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "own12", func() bool { return is(valcv24.own12(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "own23", func() bool { return is(valcv24.own23(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "own23", func() bool { return is(valcv24.own23(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(&valcv24), "own24", func() bool { return is(valcv24.own24(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 embedded fields", val(valcv24), "own24", func() bool { return is(valcv24.own24(1)) }, five, func() bool { return is(valcv24.Deep(1)) }},
		{"chain of 24 fields", val(&valcv24), "Nope", nil, nil, nil},
		{"chain of 24 fields", val(&valcv24), "nope", nil, nil, nil},
		{"chain of 1 embedded pointer fields", val(&valcp1), "Deep", func() bool { return is(valcp1.Deep(1)) }, five, func() bool { return is(valcp1.deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "Deep", func() bool { return is(valcp1.Deep(1)) }, five, func() bool { return is(valcp1.deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "deep", func() bool { return is(valcp1.deep(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "deep", func() bool { return is(valcp1.deep(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "DeepP", func() bool { return is(valcp1.DeepP(1)) }, five, func() bool { return is(valcp1.deepP(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "DeepP", func() bool { return is(valcp1.DeepP(1)) }, five, func() bool { return is(valcp1.deepP(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "deepP", func() bool { return is(valcp1.deepP(1)) }, five, func() bool { return is(valcp1.DeepP(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "deepP", func() bool { return is(valcp1.deepP(1)) }, five, func() bool { return is(valcp1.DeepP(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "DeepFieldP", func() bool { return is(valcp1.DeepFieldP(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "DeepFieldP", func() bool { return is(valcp1.DeepFieldP(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "Decoy", func() bool { return is(valcp1.Decoy(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "Decoy", func() bool { return is(valcp1.Decoy(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "decoy", func() bool { return is(valcp1.decoy(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "decoy", func() bool { return is(valcp1.decoy(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "Own1", func() bool { return is(valcp1.Own1(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "Own1", func() bool { return is(valcp1.Own1(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(&valcp1), "own1", func() bool { return is(valcp1.own1(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 embedded pointer fields", val(valcp1), "own1", func() bool { return is(valcp1.own1(1)) }, five, func() bool { return is(valcp1.Deep(1)) }},
		{"chain of 1 fields", val(&valcp1), "Nope", nil, nil, nil},
		{"chain of 1 fields", val(&valcp1), "nope", nil, nil, nil},
		{"chain of 2 embedded pointer fields", val(&valcp2), "Deep", func() bool { return is(valcp2.Deep(1)) }, five, func() bool { return is(valcp2.deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "Deep", func() bool { return is(valcp2.Deep(1)) }, five, func() bool { return is(valcp2.deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "deep", func() bool { return is(valcp2.deep(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "deep", func() bool { return is(valcp2.deep(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "DeepP", func() bool { return is(valcp2.DeepP(1)) }, five, func() bool { return is(valcp2.deepP(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "DeepP", func() bool { return is(valcp2.DeepP(1)) }, five, func() bool { return is(valcp2.deepP(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "deepP", func() bool { return is(valcp2.deepP(1)) }, five, func() bool { return is(valcp2.DeepP(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "deepP", func() bool { return is(valcp2.deepP(1)) }, five, func() bool { return is(valcp2.DeepP(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "DeepFieldP", func() bool { return is(valcp2.DeepFieldP(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "DeepFieldP", func() bool { return is(valcp2.DeepFieldP(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "Decoy", func() bool { return is(valcp2.Decoy(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "Decoy", func() bool { return is(valcp2.Decoy(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "decoy", func() bool { return is(valcp2.decoy(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "decoy", func() bool { return is(valcp2.decoy(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "Own1", func() bool { return is(valcp2.Own1(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "Own1", func() bool { return is(valcp2.Own1(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "Own2", func() bool { return is(valcp2.Own2(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "Own2", func() bool { return is(valcp2.Own2(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "own1", func() bool { return is(valcp2.own1(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "own1", func() bool { return is(valcp2.own1(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(&valcp2), "own2", func() bool { return is(valcp2.own2(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 embedded pointer fields", val(valcp2), "own2", func() bool { return is(valcp2.own2(1)) }, five, func() bool { return is(valcp2.Deep(1)) }},
		{"chain of 2 fields", val(&valcp2), "Nope", nil, nil, nil},
		{"chain of 2 fields", val(&valcp2), "nope", nil, nil, nil},
		{"chain of 3 embedded pointer fields", val(&valcp3), "Deep", func() bool { return is(valcp3.Deep(1)) }, five, func() bool { return is(valcp3.deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "Deep", func() bool { return is(valcp3.Deep(1)) }, five, func() bool { return is(valcp3.deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "deep", func() bool { return is(valcp3.deep(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "deep", func() bool { return is(valcp3.deep(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "DeepP", func() bool { return is(valcp3.DeepP(1)) }, five, func() bool { return is(valcp3.deepP(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "DeepP", func() bool { return is(valcp3.DeepP(1)) }, five, func() bool { return is(valcp3.deepP(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "deepP", func() bool { return is(valcp3.deepP(1)) }, five, func() bool { return is(valcp3.DeepP(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "deepP", func() bool { return is(valcp3.deepP(1)) }, five, func() bool { return is(valcp3.DeepP(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "DeepFieldP", func() bool { return is(valcp3.DeepFieldP(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "DeepFieldP", func() bool { return is(valcp3.DeepFieldP(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "Decoy", func() bool { return is(valcp3.Decoy(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "Decoy", func() bool { return is(valcp3.Decoy(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "decoy", func() bool { return is(valcp3.decoy(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "decoy", func() bool { return is(valcp3.decoy(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "Own1", func() bool { return is(valcp3.Own1(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "Own1", func() bool { return is(valcp3.Own1(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "Own2", func() bool { return is(valcp3.Own2(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "Own2", func() bool { return is(valcp3.Own2(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "Own3", func() bool { return is(valcp3.Own3(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "Own3", func() bool { return is(valcp3.Own3(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "own1", func() bool { return is(valcp3.own1(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "own1", func() bool { return is(valcp3.own1(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "own2", func() bool { return is(valcp3.own2(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "own2", func() bool { return is(valcp3.own2(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(&valcp3), "own3", func() bool { return is(valcp3.own3(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 embedded pointer fields", val(valcp3), "own3", func() bool { return is(valcp3.own3(1)) }, five, func() bool { return is(valcp3.Deep(1)) }},
		{"chain of 3 fields", val(&valcp3), "Nope", nil, nil, nil},
		{"chain of 3 fields", val(&valcp3), "nope", nil, nil, nil},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Deep", func() bool { return is(valcp4.Deep(1)) }, five, func() bool { return is(valcp4.deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Deep", func() bool { return is(valcp4.Deep(1)) }, five, func() bool { return is(valcp4.deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "deep", func() bool { return is(valcp4.deep(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "deep", func() bool { return is(valcp4.deep(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "DeepP", func() bool { return is(valcp4.DeepP(1)) }, five, func() bool { return is(valcp4.deepP(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "DeepP", func() bool { return is(valcp4.DeepP(1)) }, five, func() bool { return is(valcp4.deepP(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "deepP", func() bool { return is(valcp4.deepP(1)) }, five, func() bool { return is(valcp4.DeepP(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "deepP", func() bool { return is(valcp4.deepP(1)) }, five, func() bool { return is(valcp4.DeepP(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "DeepFieldP", func() bool { return is(valcp4.DeepFieldP(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "DeepFieldP", func() bool { return is(valcp4.DeepFieldP(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Decoy", func() bool { return is(valcp4.Decoy(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Decoy", func() bool { return is(valcp4.Decoy(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "decoy", func() bool { return is(valcp4.decoy(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "decoy", func() bool { return is(valcp4.decoy(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Own1", func() bool { return is(valcp4.Own1(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Own1", func() bool { return is(valcp4.Own1(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Own2", func() bool { return is(valcp4.Own2(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Own2", func() bool { return is(valcp4.Own2(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Own3", func() bool { return is(valcp4.Own3(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Own3", func() bool { return is(valcp4.Own3(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "Own4", func() bool { return is(valcp4.Own4(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "Own4", func() bool { return is(valcp4.Own4(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "own1", func() bool { return is(valcp4.own1(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "own1", func() bool { return is(valcp4.own1(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "own2", func() bool { return is(valcp4.own2(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "own2", func() bool { return is(valcp4.own2(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "own3", func() bool { return is(valcp4.own3(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "own3", func() bool { return is(valcp4.own3(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(&valcp4), "own4", func() bool { return is(valcp4.own4(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 embedded pointer fields", val(valcp4), "own4", func() bool { return is(valcp4.own4(1)) }, five, func() bool { return is(valcp4.Deep(1)) }},
		{"chain of 4 fields", val(&valcp4), "Nope", nil, nil, nil},
		{"chain of 4 fields", val(&valcp4), "nope", nil, nil, nil},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Deep", func() bool { return is(valcp5.Deep(1)) }, five, func() bool { return is(valcp5.deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Deep", func() bool { return is(valcp5.Deep(1)) }, five, func() bool { return is(valcp5.deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "deep", func() bool { return is(valcp5.deep(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "deep", func() bool { return is(valcp5.deep(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "DeepP", func() bool { return is(valcp5.DeepP(1)) }, five, func() bool { return is(valcp5.deepP(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "DeepP", func() bool { return is(valcp5.DeepP(1)) }, five, func() bool { return is(valcp5.deepP(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "deepP", func() bool { return is(valcp5.deepP(1)) }, five, func() bool { return is(valcp5.DeepP(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "deepP", func() bool { return is(valcp5.deepP(1)) }, five, func() bool { return is(valcp5.DeepP(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "DeepFieldP", func() bool { return is(valcp5.DeepFieldP(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "DeepFieldP", func() bool { return is(valcp5.DeepFieldP(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Decoy", func() bool { return is(valcp5.Decoy(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Decoy", func() bool { return is(valcp5.Decoy(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "decoy", func() bool { return is(valcp5.decoy(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "decoy", func() bool { return is(valcp5.decoy(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Own1", func() bool { return is(valcp5.Own1(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Own1", func() bool { return is(valcp5.Own1(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Own2", func() bool { return is(valcp5.Own2(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Own2", func() bool { return is(valcp5.Own2(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Own4", func() bool { return is(valcp5.Own4(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Own4", func() bool { return is(valcp5.Own4(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "Own5", func() bool { return is(valcp5.Own5(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "Own5", func() bool { return is(valcp5.Own5(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "own1", func() bool { return is(valcp5.own1(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "own1", func() bool { return is(valcp5.own1(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "own2", func() bool { return is(valcp5.own2(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "own2", func() bool { return is(valcp5.own2(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "own4", func() bool { return is(valcp5.own4(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "own4", func() bool { return is(valcp5.own4(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(&valcp5), "own5", func() bool { return is(valcp5.own5(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 embedded pointer fields", val(valcp5), "own5", func() bool { return is(valcp5.own5(1)) }, five, func() bool { return is(valcp5.Deep(1)) }},
		{"chain of 5 fields", val(&valcp5), "Nope", nil, nil, nil},
		{"chain of 5 fields", val(&valcp5), "nope", nil, nil, nil},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Deep", func() bool { return is(valcp6.Deep(1)) }, five, func() bool { return is(valcp6.deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Deep", func() bool { return is(valcp6.Deep(1)) }, five, func() bool { return is(valcp6.deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "deep", func() bool { return is(valcp6.deep(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "deep", func() bool { return is(valcp6.deep(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "DeepP", func() bool { return is(valcp6.DeepP(1)) }, five, func() bool { return is(valcp6.deepP(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "DeepP", func() bool { return is(valcp6.DeepP(1)) }, five, func() bool { return is(valcp6.deepP(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "deepP", func() bool { return is(valcp6.deepP(1)) }, five, func() bool { return is(valcp6.DeepP(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "deepP", func() bool { return is(valcp6.deepP(1)) }, five, func() bool { return is(valcp6.DeepP(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "DeepFieldP", func() bool { return is(valcp6.DeepFieldP(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "DeepFieldP", func() bool { return is(valcp6.DeepFieldP(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Decoy", func() bool { return is(valcp6.Decoy(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Decoy", func() bool { return is(valcp6.Decoy(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "decoy", func() bool { return is(valcp6.decoy(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "decoy", func() bool { return is(valcp6.decoy(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Own1", func() bool { return is(valcp6.Own1(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Own1", func() bool { return is(valcp6.Own1(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Own2", func() bool { return is(valcp6.Own2(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Own2", func() bool { return is(valcp6.Own2(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Own3", func() bool { return is(valcp6.Own3(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Own3", func() bool { return is(valcp6.Own3(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Own5", func() bool { return is(valcp6.Own5(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Own5", func() bool { return is(valcp6.Own5(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "Own6", func() bool { return is(valcp6.Own6(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "Own6", func() bool { return is(valcp6.Own6(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "own1", func() bool { return is(valcp6.own1(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "own1", func() bool { return is(valcp6.own1(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "own2", func() bool { return is(valcp6.own2(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "own2", func() bool { return is(valcp6.own2(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "own3", func() bool { return is(valcp6.own3(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "own3", func() bool { return is(valcp6.own3(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "own5", func() bool { return is(valcp6.own5(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "own5", func() bool { return is(valcp6.own5(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(&valcp6), "own6", func() bool { return is(valcp6.own6(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 embedded pointer fields", val(valcp6), "own6", func() bool { return is(valcp6.own6(1)) }, five, func() bool { return is(valcp6.Deep(1)) }},
		{"chain of 6 fields", val(&valcp6), "Nope", nil, nil, nil},
		{"chain of 6 fields", val(&valcp6), "nope", nil, nil, nil},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Deep", func() bool { return is(valcp7.Deep(1)) }, five, func() bool { return is(valcp7.deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Deep", func() bool { return is(valcp7.Deep(1)) }, five, func() bool { return is(valcp7.deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "deep", func() bool { return is(valcp7.deep(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "deep", func() bool { return is(valcp7.deep(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "DeepP", func() bool { return is(valcp7.DeepP(1)) }, five, func() bool { return is(valcp7.deepP(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "DeepP", func() bool { return is(valcp7.DeepP(1)) }, five, func() bool { return is(valcp7.deepP(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "deepP", func() bool { return is(valcp7.deepP(1)) }, five, func() bool { return is(valcp7.DeepP(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "deepP", func() bool { return is(valcp7.deepP(1)) }, five, func() bool { return is(valcp7.DeepP(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "DeepFieldP", func() bool { return is(valcp7.DeepFieldP(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "DeepFieldP", func() bool { return is(valcp7.DeepFieldP(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Decoy", func() bool { return is(valcp7.Decoy(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Decoy", func() bool { return is(valcp7.Decoy(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "decoy", func() bool { return is(valcp7.decoy(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "decoy", func() bool { return is(valcp7.decoy(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Own1", func() bool { return is(valcp7.Own1(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Own1", func() bool { return is(valcp7.Own1(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Own2", func() bool { return is(valcp7.Own2(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Own2", func() bool { return is(valcp7.Own2(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Own3", func() bool { return is(valcp7.Own3(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Own3", func() bool { return is(valcp7.Own3(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Own6", func() bool { return is(valcp7.Own6(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Own6", func() bool { return is(valcp7.Own6(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "Own7", func() bool { return is(valcp7.Own7(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "Own7", func() bool { return is(valcp7.Own7(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "own1", func() bool { return is(valcp7.own1(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "own1", func() bool { return is(valcp7.own1(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "own2", func() bool { return is(valcp7.own2(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "own2", func() bool { return is(valcp7.own2(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "own3", func() bool { return is(valcp7.own3(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "own3", func() bool { return is(valcp7.own3(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "own6", func() bool { return is(valcp7.own6(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "own6", func() bool { return is(valcp7.own6(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(&valcp7), "own7", func() bool { return is(valcp7.own7(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 embedded pointer fields", val(valcp7), "own7", func() bool { return is(valcp7.own7(1)) }, five, func() bool { return is(valcp7.Deep(1)) }},
		{"chain of 7 fields", val(&valcp7), "Nope", nil, nil, nil},
		{"chain of 7 fields", val(&valcp7), "nope", nil, nil, nil},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Deep", func() bool { return is(valcp8.Deep(1)) }, five, func() bool { return is(valcp8.deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Deep", func() bool { return is(valcp8.Deep(1)) }, five, func() bool { return is(valcp8.deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "deep", func() bool { return is(valcp8.deep(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "deep", func() bool { return is(valcp8.deep(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "DeepP", func() bool { return is(valcp8.DeepP(1)) }, five, func() bool { return is(valcp8.deepP(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "DeepP", func() bool { return is(valcp8.DeepP(1)) }, five, func() bool { return is(valcp8.deepP(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "deepP", func() bool { return is(valcp8.deepP(1)) }, five, func() bool { return is(valcp8.DeepP(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "deepP", func() bool { return is(valcp8.deepP(1)) }, five, func() bool { return is(valcp8.DeepP(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "DeepFieldP", func() bool { return is(valcp8.DeepFieldP(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "DeepFieldP", func() bool { return is(valcp8.DeepFieldP(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Decoy", func() bool { return is(valcp8.Decoy(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Decoy", func() bool { return is(valcp8.Decoy(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "decoy", func() bool { return is(valcp8.decoy(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "decoy", func() bool { return is(valcp8.decoy(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Own1", func() bool { return is(valcp8.Own1(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Own1", func() bool { return is(valcp8.Own1(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Own2", func() bool { return is(valcp8.Own2(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Own2", func() bool { return is(valcp8.Own2(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Own4", func() bool { return is(valcp8.Own4(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Own4", func() bool { return is(valcp8.Own4(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Own7", func() bool { return is(valcp8.Own7(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Own7", func() bool { return is(valcp8.Own7(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "Own8", func() bool { return is(valcp8.Own8(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "Own8", func() bool { return is(valcp8.Own8(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "own1", func() bool { return is(valcp8.own1(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "own1", func() bool { return is(valcp8.own1(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "own2", func() bool { return is(valcp8.own2(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "own2", func() bool { return is(valcp8.own2(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "own4", func() bool { return is(valcp8.own4(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "own4", func() bool { return is(valcp8.own4(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "own7", func() bool { return is(valcp8.own7(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "own7", func() bool { return is(valcp8.own7(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(&valcp8), "own8", func() bool { return is(valcp8.own8(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 embedded pointer fields", val(valcp8), "own8", func() bool { return is(valcp8.own8(1)) }, five, func() bool { return is(valcp8.Deep(1)) }},
		{"chain of 8 fields", val(&valcp8), "Nope", nil, nil, nil},
		{"chain of 8 fields", val(&valcp8), "nope", nil, nil, nil},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Deep", func() bool { return is(valcp9.Deep(1)) }, five, func() bool { return is(valcp9.deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Deep", func() bool { return is(valcp9.Deep(1)) }, five, func() bool { return is(valcp9.deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "deep", func() bool { return is(valcp9.deep(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "deep", func() bool { return is(valcp9.deep(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "DeepP", func() bool { return is(valcp9.DeepP(1)) }, five, func() bool { return is(valcp9.deepP(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "DeepP", func() bool { return is(valcp9.DeepP(1)) }, five, func() bool { return is(valcp9.deepP(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "deepP", func() bool { return is(valcp9.deepP(1)) }, five, func() bool { return is(valcp9.DeepP(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "deepP", func() bool { return is(valcp9.deepP(1)) }, five, func() bool { return is(valcp9.DeepP(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "DeepFieldP", func() bool { return is(valcp9.DeepFieldP(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "DeepFieldP", func() bool { return is(valcp9.DeepFieldP(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Decoy", func() bool { return is(valcp9.Decoy(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Decoy", func() bool { return is(valcp9.Decoy(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "decoy", func() bool { return is(valcp9.decoy(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "decoy", func() bool { return is(valcp9.decoy(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Own1", func() bool { return is(valcp9.Own1(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Own1", func() bool { return is(valcp9.Own1(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Own2", func() bool { return is(valcp9.Own2(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Own2", func() bool { return is(valcp9.Own2(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Own4", func() bool { return is(valcp9.Own4(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Own4", func() bool { return is(valcp9.Own4(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Own8", func() bool { return is(valcp9.Own8(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Own8", func() bool { return is(valcp9.Own8(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "Own9", func() bool { return is(valcp9.Own9(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "Own9", func() bool { return is(valcp9.Own9(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "own1", func() bool { return is(valcp9.own1(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "own1", func() bool { return is(valcp9.own1(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "own2", func() bool { return is(valcp9.own2(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "own2", func() bool { return is(valcp9.own2(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "own4", func() bool { return is(valcp9.own4(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "own4", func() bool { return is(valcp9.own4(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "own8", func() bool { return is(valcp9.own8(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "own8", func() bool { return is(valcp9.own8(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(&valcp9), "own9", func() bool { return is(valcp9.own9(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 embedded pointer fields", val(valcp9), "own9", func() bool { return is(valcp9.own9(1)) }, five, func() bool { return is(valcp9.Deep(1)) }},
		{"chain of 9 fields", val(&valcp9), "Nope", nil, nil, nil},
		{"chain of 9 fields", val(&valcp9), "nope", nil, nil, nil},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Deep", func() bool { return is(valcp10.Deep(1)) }, five, func() bool { return is(valcp10.deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Deep", func() bool { return is(valcp10.Deep(1)) }, five, func() bool { return is(valcp10.deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "deep", func() bool { return is(valcp10.deep(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "deep", func() bool { return is(valcp10.deep(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "DeepP", func() bool { return is(valcp10.DeepP(1)) }, five, func() bool { return is(valcp10.deepP(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "DeepP", func() bool { return is(valcp10.DeepP(1)) }, five, func() bool { return is(valcp10.deepP(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "deepP", func() bool { return is(valcp10.deepP(1)) }, five, func() bool { return is(valcp10.DeepP(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "deepP", func() bool { return is(valcp10.deepP(1)) }, five, func() bool { return is(valcp10.DeepP(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "DeepFieldP", func() bool { return is(valcp10.DeepFieldP(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "DeepFieldP", func() bool { return is(valcp10.DeepFieldP(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Decoy", func() bool { return is(valcp10.Decoy(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Decoy", func() bool { return is(valcp10.Decoy(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "decoy", func() bool { return is(valcp10.decoy(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "decoy", func() bool { return is(valcp10.decoy(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Own1", func() bool { return is(valcp10.Own1(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Own1", func() bool { return is(valcp10.Own1(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Own2", func() bool { return is(valcp10.Own2(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Own2", func() bool { return is(valcp10.Own2(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Own5", func() bool { return is(valcp10.Own5(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Own5", func() bool { return is(valcp10.Own5(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Own9", func() bool { return is(valcp10.Own9(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Own9", func() bool { return is(valcp10.Own9(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "Own10", func() bool { return is(valcp10.Own10(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "Own10", func() bool { return is(valcp10.Own10(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "own1", func() bool { return is(valcp10.own1(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "own1", func() bool { return is(valcp10.own1(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "own2", func() bool { return is(valcp10.own2(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "own2", func() bool { return is(valcp10.own2(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "own5", func() bool { return is(valcp10.own5(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "own5", func() bool { return is(valcp10.own5(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "own9", func() bool { return is(valcp10.own9(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "own9", func() bool { return is(valcp10.own9(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(&valcp10), "own10", func() bool { return is(valcp10.own10(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 embedded pointer fields", val(valcp10), "own10", func() bool { return is(valcp10.own10(1)) }, five, func() bool { return is(valcp10.Deep(1)) }},
		{"chain of 10 fields", val(&valcp10), "Nope", nil, nil, nil},
		{"chain of 10 fields", val(&valcp10), "nope", nil, nil, nil},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Deep", func() bool { return is(valcp11.Deep(1)) }, five, func() bool { return is(valcp11.deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Deep", func() bool { return is(valcp11.Deep(1)) }, five, func() bool { return is(valcp11.deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "deep", func() bool { return is(valcp11.deep(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "deep", func() bool { return is(valcp11.deep(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "DeepP", func() bool { return is(valcp11.DeepP(1)) }, five, func() bool { return is(valcp11.deepP(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "DeepP", func() bool { return is(valcp11.DeepP(1)) }, five, func() bool { return is(valcp11.deepP(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "deepP", func() bool { return is(valcp11.deepP(1)) }, five, func() bool { return is(valcp11.DeepP(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "deepP", func() bool { return is(valcp11.deepP(1)) }, five, func() bool { return is(valcp11.DeepP(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "DeepFieldP", func() bool { return is(valcp11.DeepFieldP(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "DeepFieldP", func() bool { return is(valcp11.DeepFieldP(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Decoy", func() bool { return is(valcp11.Decoy(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Decoy", func() bool { return is(valcp11.Decoy(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "decoy", func() bool { return is(valcp11.decoy(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "decoy", func() bool { return is(valcp11.decoy(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Own1", func() bool { return is(valcp11.Own1(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Own1", func() bool { return is(valcp11.Own1(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Own2", func() bool { return is(valcp11.Own2(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Own2", func() bool { return is(valcp11.Own2(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Own5", func() bool { return is(valcp11.Own5(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Own5", func() bool { return is(valcp11.Own5(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Own10", func() bool { return is(valcp11.Own10(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Own10", func() bool { return is(valcp11.Own10(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "Own11", func() bool { return is(valcp11.Own11(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "Own11", func() bool { return is(valcp11.Own11(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "own1", func() bool { return is(valcp11.own1(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "own1", func() bool { return is(valcp11.own1(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "own2", func() bool { return is(valcp11.own2(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "own2", func() bool { return is(valcp11.own2(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "own5", func() bool { return is(valcp11.own5(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "own5", func() bool { return is(valcp11.own5(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "own10", func() bool { return is(valcp11.own10(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "own10", func() bool { return is(valcp11.own10(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(&valcp11), "own11", func() bool { return is(valcp11.own11(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 embedded pointer fields", val(valcp11), "own11", func() bool { return is(valcp11.own11(1)) }, five, func() bool { return is(valcp11.Deep(1)) }},
		{"chain of 11 fields", val(&valcp11), "Nope", nil, nil, nil},
		{"chain of 11 fields", val(&valcp11), "nope", nil, nil, nil},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Deep", func() bool { return is(valcp12.Deep(1)) }, five, func() bool { return is(valcp12.deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Deep", func() bool { return is(valcp12.Deep(1)) }, five, func() bool { return is(valcp12.deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "deep", func() bool { return is(valcp12.deep(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "deep", func() bool { return is(valcp12.deep(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "DeepP", func() bool { return is(valcp12.DeepP(1)) }, five, func() bool { return is(valcp12.deepP(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "DeepP", func() bool { return is(valcp12.DeepP(1)) }, five, func() bool { return is(valcp12.deepP(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "deepP", func() bool { return is(valcp12.deepP(1)) }, five, func() bool { return is(valcp12.DeepP(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "deepP", func() bool { return is(valcp12.deepP(1)) }, five, func() bool { return is(valcp12.DeepP(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "DeepFieldP", func() bool { return is(valcp12.DeepFieldP(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "DeepFieldP", func() bool { return is(valcp12.DeepFieldP(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Decoy", func() bool { return is(valcp12.Decoy(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Decoy", func() bool { return is(valcp12.Decoy(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "decoy", func() bool { return is(valcp12.decoy(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "decoy", func() bool { return is(valcp12.decoy(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Own1", func() bool { return is(valcp12.Own1(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Own1", func() bool { return is(valcp12.Own1(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Own2", func() bool { return is(valcp12.Own2(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Own2", func() bool { return is(valcp12.Own2(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Own6", func() bool { return is(valcp12.Own6(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Own6", func() bool { return is(valcp12.Own6(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Own11", func() bool { return is(valcp12.Own11(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Own11", func() bool { return is(valcp12.Own11(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "Own12", func() bool { return is(valcp12.Own12(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "Own12", func() bool { return is(valcp12.Own12(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "own1", func() bool { return is(valcp12.own1(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "own1", func() bool { return is(valcp12.own1(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "own2", func() bool { return is(valcp12.own2(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "own2", func() bool { return is(valcp12.own2(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "own6", func() bool { return is(valcp12.own6(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "own6", func() bool { return is(valcp12.own6(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "own11", func() bool { return is(valcp12.own11(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "own11", func() bool { return is(valcp12.own11(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(&valcp12), "own12", func() bool { return is(valcp12.own12(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 embedded pointer fields", val(valcp12), "own12", func() bool { return is(valcp12.own12(1)) }, five, func() bool { return is(valcp12.Deep(1)) }},
		{"chain of 12 fields", val(&valcp12), "Nope", nil, nil, nil},
		{"chain of 12 fields", val(&valcp12), "nope", nil, nil, nil},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Deep", func() bool { return is(valcp13.Deep(1)) }, five, func() bool { return is(valcp13.deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Deep", func() bool { return is(valcp13.Deep(1)) }, five, func() bool { return is(valcp13.deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "deep", func() bool { return is(valcp13.deep(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "deep", func() bool { return is(valcp13.deep(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "DeepP", func() bool { return is(valcp13.DeepP(1)) }, five, func() bool { return is(valcp13.deepP(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "DeepP", func() bool { return is(valcp13.DeepP(1)) }, five, func() bool { return is(valcp13.deepP(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "deepP", func() bool { return is(valcp13.deepP(1)) }, five, func() bool { return is(valcp13.DeepP(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "deepP", func() bool { return is(valcp13.deepP(1)) }, five, func() bool { return is(valcp13.DeepP(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "DeepFieldP", func() bool { return is(valcp13.DeepFieldP(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "DeepFieldP", func() bool { return is(valcp13.DeepFieldP(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Decoy", func() bool { return is(valcp13.Decoy(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Decoy", func() bool { return is(valcp13.Decoy(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "decoy", func() bool { return is(valcp13.decoy(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "decoy", func() bool { return is(valcp13.decoy(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Own1", func() bool { return is(valcp13.Own1(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Own1", func() bool { return is(valcp13.Own1(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Own2", func() bool { return is(valcp13.Own2(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Own2", func() bool { return is(valcp13.Own2(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Own6", func() bool { return is(valcp13.Own6(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Own6", func() bool { return is(valcp13.Own6(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Own12", func() bool { return is(valcp13.Own12(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Own12", func() bool { return is(valcp13.Own12(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "Own13", func() bool { return is(valcp13.Own13(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "Own13", func() bool { return is(valcp13.Own13(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "own1", func() bool { return is(valcp13.own1(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "own1", func() bool { return is(valcp13.own1(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "own2", func() bool { return is(valcp13.own2(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "own2", func() bool { return is(valcp13.own2(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "own6", func() bool { return is(valcp13.own6(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "own6", func() bool { return is(valcp13.own6(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "own12", func() bool { return is(valcp13.own12(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "own12", func() bool { return is(valcp13.own12(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(&valcp13), "own13", func() bool { return is(valcp13.own13(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 embedded pointer fields", val(valcp13), "own13", func() bool { return is(valcp13.own13(1)) }, five, func() bool { return is(valcp13.Deep(1)) }},
		{"chain of 13 fields", val(&valcp13), "Nope", nil, nil, nil},
		{"chain of 13 fields", val(&valcp13), "nope", nil, nil, nil},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Deep", func() bool { return is(valcp14.Deep(1)) }, five, func() bool { return is(valcp14.deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Deep", func() bool { return is(valcp14.Deep(1)) }, five, func() bool { return is(valcp14.deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "deep", func() bool { return is(valcp14.deep(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "deep", func() bool { return is(valcp14.deep(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "DeepP", func() bool { return is(valcp14.DeepP(1)) }, five, func() bool { return is(valcp14.deepP(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "DeepP", func() bool { return is(valcp14.DeepP(1)) }, five, func() bool { return is(valcp14.deepP(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "deepP", func() bool { return is(valcp14.deepP(1)) }, five, func() bool { return is(valcp14.DeepP(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "deepP", func() bool { return is(valcp14.deepP(1)) }, five, func() bool { return is(valcp14.DeepP(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "DeepFieldP", func() bool { return is(valcp14.DeepFieldP(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "DeepFieldP", func() bool { return is(valcp14.DeepFieldP(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Decoy", func() bool { return is(valcp14.Decoy(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Decoy", func() bool { return is(valcp14.Decoy(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "decoy", func() bool { return is(valcp14.decoy(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "decoy", func() bool { return is(valcp14.decoy(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Own1", func() bool { return is(valcp14.Own1(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Own1", func() bool { return is(valcp14.Own1(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Own2", func() bool { return is(valcp14.Own2(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Own2", func() bool { return is(valcp14.Own2(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Own7", func() bool { return is(valcp14.Own7(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Own7", func() bool { return is(valcp14.Own7(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Own13", func() bool { return is(valcp14.Own13(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Own13", func() bool { return is(valcp14.Own13(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "Own14", func() bool { return is(valcp14.Own14(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "Own14", func() bool { return is(valcp14.Own14(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "own1", func() bool { return is(valcp14.own1(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "own1", func() bool { return is(valcp14.own1(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "own2", func() bool { return is(valcp14.own2(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "own2", func() bool { return is(valcp14.own2(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "own7", func() bool { return is(valcp14.own7(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "own7", func() bool { return is(valcp14.own7(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "own13", func() bool { return is(valcp14.own13(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "own13", func() bool { return is(valcp14.own13(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(&valcp14), "own14", func() bool { return is(valcp14.own14(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 embedded pointer fields", val(valcp14), "own14", func() bool { return is(valcp14.own14(1)) }, five, func() bool { return is(valcp14.Deep(1)) }},
		{"chain of 14 fields", val(&valcp14), "Nope", nil, nil, nil},
		{"chain of 14 fields", val(&valcp14), "nope", nil, nil, nil},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Deep", func() bool { return is(valcp15.Deep(1)) }, five, func() bool { return is(valcp15.deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Deep", func() bool { return is(valcp15.Deep(1)) }, five, func() bool { return is(valcp15.deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "deep", func() bool { return is(valcp15.deep(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "deep", func() bool { return is(valcp15.deep(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "DeepP", func() bool { return is(valcp15.DeepP(1)) }, five, func() bool { return is(valcp15.deepP(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "DeepP", func() bool { return is(valcp15.DeepP(1)) }, five, func() bool { return is(valcp15.deepP(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "deepP", func() bool { return is(valcp15.deepP(1)) }, five, func() bool { return is(valcp15.DeepP(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "deepP", func() bool { return is(valcp15.deepP(1)) }, five, func() bool { return is(valcp15.DeepP(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "DeepFieldP", func() bool { return is(valcp15.DeepFieldP(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "DeepFieldP", func() bool { return is(valcp15.DeepFieldP(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Decoy", func() bool { return is(valcp15.Decoy(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Decoy", func() bool { return is(valcp15.Decoy(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "decoy", func() bool { return is(valcp15.decoy(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "decoy", func() bool { return is(valcp15.decoy(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Own1", func() bool { return is(valcp15.Own1(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Own1", func() bool { return is(valcp15.Own1(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Own2", func() bool { return is(valcp15.Own2(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Own2", func() bool { return is(valcp15.Own2(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Own7", func() bool { return is(valcp15.Own7(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Own7", func() bool { return is(valcp15.Own7(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Own14", func() bool { return is(valcp15.Own14(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Own14", func() bool { return is(valcp15.Own14(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "Own15", func() bool { return is(valcp15.Own15(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "Own15", func() bool { return is(valcp15.Own15(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "own1", func() bool { return is(valcp15.own1(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "own1", func() bool { return is(valcp15.own1(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "own2", func() bool { return is(valcp15.own2(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "own2", func() bool { return is(valcp15.own2(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "own7", func() bool { return is(valcp15.own7(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "own7", func() bool { return is(valcp15.own7(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "own14", func() bool { return is(valcp15.own14(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "own14", func() bool { return is(valcp15.own14(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(&valcp15), "own15", func() bool { return is(valcp15.own15(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 embedded pointer fields", val(valcp15), "own15", func() bool { return is(valcp15.own15(1)) }, five, func() bool { return is(valcp15.Deep(1)) }},
		{"chain of 15 fields", val(&valcp15), "Nope", nil, nil, nil},
		{"chain of 15 fields", val(&valcp15), "nope", nil, nil, nil},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Deep", func() bool { return is(valcp16.Deep(1)) }, five, func() bool { return is(valcp16.deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Deep", func() bool { return is(valcp16.Deep(1)) }, five, func() bool { return is(valcp16.deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "deep", func() bool { return is(valcp16.deep(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "deep", func() bool { return is(valcp16.deep(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "DeepP", func() bool { return is(valcp16.DeepP(1)) }, five, func() bool { return is(valcp16.deepP(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "DeepP", func() bool { return is(valcp16.DeepP(1)) }, five, func() bool { return is(valcp16.deepP(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "deepP", func() bool { return is(valcp16.deepP(1)) }, five, func() bool { return is(valcp16.DeepP(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "deepP", func() bool { return is(valcp16.deepP(1)) }, five, func() bool { return is(valcp16.DeepP(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "DeepFieldP", func() bool { return is(valcp16.DeepFieldP(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "DeepFieldP", func() bool { return is(valcp16.DeepFieldP(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Decoy", func() bool { return is(valcp16.Decoy(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Decoy", func() bool { return is(valcp16.Decoy(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "decoy", func() bool { return is(valcp16.decoy(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "decoy", func() bool { return is(valcp16.decoy(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Own1", func() bool { return is(valcp16.Own1(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Own1", func() bool { return is(valcp16.Own1(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Own2", func() bool { return is(valcp16.Own2(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Own2", func() bool { return is(valcp16.Own2(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Own8", func() bool { return is(valcp16.Own8(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Own8", func() bool { return is(valcp16.Own8(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Own15", func() bool { return is(valcp16.Own15(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Own15", func() bool { return is(valcp16.Own15(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "Own16", func() bool { return is(valcp16.Own16(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "Own16", func() bool { return is(valcp16.Own16(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "own1", func() bool { return is(valcp16.own1(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "own1", func() bool { return is(valcp16.own1(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "own2", func() bool { return is(valcp16.own2(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "own2", func() bool { return is(valcp16.own2(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "own8", func() bool { return is(valcp16.own8(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "own8", func() bool { return is(valcp16.own8(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "own15", func() bool { return is(valcp16.own15(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "own15", func() bool { return is(valcp16.own15(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(&valcp16), "own16", func() bool { return is(valcp16.own16(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 embedded pointer fields", val(valcp16), "own16", func() bool { return is(valcp16.own16(1)) }, five, func() bool { return is(valcp16.Deep(1)) }},
		{"chain of 16 fields", val(&valcp16), "Nope", nil, nil, nil},
		{"chain of 16 fields", val(&valcp16), "nope", nil, nil, nil},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Deep", func() bool { return is(valcp17.Deep(1)) }, five, func() bool { return is(valcp17.deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Deep", func() bool { return is(valcp17.Deep(1)) }, five, func() bool { return is(valcp17.deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "deep", func() bool { return is(valcp17.deep(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "deep", func() bool { return is(valcp17.deep(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "DeepP", func() bool { return is(valcp17.DeepP(1)) }, five, func() bool { return is(valcp17.deepP(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "DeepP", func() bool { return is(valcp17.DeepP(1)) }, five, func() bool { return is(valcp17.deepP(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "deepP", func() bool { return is(valcp17.deepP(1)) }, five, func() bool { return is(valcp17.DeepP(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "deepP", func() bool { return is(valcp17.deepP(1)) }, five, func() bool { return is(valcp17.DeepP(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "DeepFieldP", func() bool { return is(valcp17.DeepFieldP(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "DeepFieldP", func() bool { return is(valcp17.DeepFieldP(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Decoy", func() bool { return is(valcp17.Decoy(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Decoy", func() bool { return is(valcp17.Decoy(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "decoy", func() bool { return is(valcp17.decoy(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "decoy", func() bool { return is(valcp17.decoy(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Own1", func() bool { return is(valcp17.Own1(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Own1", func() bool { return is(valcp17.Own1(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Own2", func() bool { return is(valcp17.Own2(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Own2", func() bool { return is(valcp17.Own2(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Own8", func() bool { return is(valcp17.Own8(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Own8", func() bool { return is(valcp17.Own8(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Own16", func() bool { return is(valcp17.Own16(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Own16", func() bool { return is(valcp17.Own16(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "Own17", func() bool { return is(valcp17.Own17(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "Own17", func() bool { return is(valcp17.Own17(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "own1", func() bool { return is(valcp17.own1(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "own1", func() bool { return is(valcp17.own1(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "own2", func() bool { return is(valcp17.own2(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "own2", func() bool { return is(valcp17.own2(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "own8", func() bool { return is(valcp17.own8(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "own8", func() bool { return is(valcp17.own8(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "own16", func() bool { return is(valcp17.own16(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "own16", func() bool { return is(valcp17.own16(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(&valcp17), "own17", func() bool { return is(valcp17.own17(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 embedded pointer fields", val(valcp17), "own17", func() bool { return is(valcp17.own17(1)) }, five, func() bool { return is(valcp17.Deep(1)) }},
		{"chain of 17 fields", val(&valcp17), "Nope", nil, nil, nil},
		{"chain of 17 fields", val(&valcp17), "nope", nil, nil, nil},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Deep", func() bool { return is(valcp18.Deep(1)) }, five, func() bool { return is(valcp18.deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Deep", func() bool { return is(valcp18.Deep(1)) }, five, func() bool { return is(valcp18.deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "deep", func() bool { return is(valcp18.deep(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "deep", func() bool { return is(valcp18.deep(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "DeepP", func() bool { return is(valcp18.DeepP(1)) }, five, func() bool { return is(valcp18.deepP(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "DeepP", func() bool { return is(valcp18.DeepP(1)) }, five, func() bool { return is(valcp18.deepP(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "deepP", func() bool { return is(valcp18.deepP(1)) }, five, func() bool { return is(valcp18.DeepP(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "deepP", func() bool { return is(valcp18.deepP(1)) }, five, func() bool { return is(valcp18.DeepP(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "DeepFieldP", func() bool { return is(valcp18.DeepFieldP(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "DeepFieldP", func() bool { return is(valcp18.DeepFieldP(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Decoy", func() bool { return is(valcp18.Decoy(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Decoy", func() bool { return is(valcp18.Decoy(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "decoy", func() bool { return is(valcp18.decoy(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "decoy", func() bool { return is(valcp18.decoy(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Own1", func() bool { return is(valcp18.Own1(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Own1", func() bool { return is(valcp18.Own1(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Own2", func() bool { return is(valcp18.Own2(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Own2", func() bool { return is(valcp18.Own2(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Own9", func() bool { return is(valcp18.Own9(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Own9", func() bool { return is(valcp18.Own9(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Own17", func() bool { return is(valcp18.Own17(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Own17", func() bool { return is(valcp18.Own17(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "Own18", func() bool { return is(valcp18.Own18(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "Own18", func() bool { return is(valcp18.Own18(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "own1", func() bool { return is(valcp18.own1(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "own1", func() bool { return is(valcp18.own1(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "own2", func() bool { return is(valcp18.own2(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "own2", func() bool { return is(valcp18.own2(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "own9", func() bool { return is(valcp18.own9(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "own9", func() bool { return is(valcp18.own9(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "own17", func() bool { return is(valcp18.own17(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "own17", func() bool { return is(valcp18.own17(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(&valcp18), "own18", func() bool { return is(valcp18.own18(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 embedded pointer fields", val(valcp18), "own18", func() bool { return is(valcp18.own18(1)) }, five, func() bool { return is(valcp18.Deep(1)) }},
		{"chain of 18 fields", val(&valcp18), "Nope", nil, nil, nil},
		{"chain of 18 fields", val(&valcp18), "nope", nil, nil, nil},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Deep", func() bool { return is(valcp19.Deep(1)) }, five, func() bool { return is(valcp19.deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Deep", func() bool { return is(valcp19.Deep(1)) }, five, func() bool { return is(valcp19.deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "deep", func() bool { return is(valcp19.deep(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "deep", func() bool { return is(valcp19.deep(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "DeepP", func() bool { return is(valcp19.DeepP(1)) }, five, func() bool { return is(valcp19.deepP(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "DeepP", func() bool { return is(valcp19.DeepP(1)) }, five, func() bool { return is(valcp19.deepP(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "deepP", func() bool { return is(valcp19.deepP(1)) }, five, func() bool { return is(valcp19.DeepP(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "deepP", func() bool { return is(valcp19.deepP(1)) }, five, func() bool { return is(valcp19.DeepP(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "DeepFieldP", func() bool { return is(valcp19.DeepFieldP(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "DeepFieldP", func() bool { return is(valcp19.DeepFieldP(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Decoy", func() bool { return is(valcp19.Decoy(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Decoy", func() bool { return is(valcp19.Decoy(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "decoy", func() bool { return is(valcp19.decoy(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "decoy", func() bool { return is(valcp19.decoy(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Own1", func() bool { return is(valcp19.Own1(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Own1", func() bool { return is(valcp19.Own1(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Own2", func() bool { return is(valcp19.Own2(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Own2", func() bool { return is(valcp19.Own2(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Own9", func() bool { return is(valcp19.Own9(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Own9", func() bool { return is(valcp19.Own9(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Own18", func() bool { return is(valcp19.Own18(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Own18", func() bool { return is(valcp19.Own18(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "Own19", func() bool { return is(valcp19.Own19(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "Own19", func() bool { return is(valcp19.Own19(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "own1", func() bool { return is(valcp19.own1(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "own1", func() bool { return is(valcp19.own1(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "own2", func() bool { return is(valcp19.own2(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "own2", func() bool { return is(valcp19.own2(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "own9", func() bool { return is(valcp19.own9(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "own9", func() bool { return is(valcp19.own9(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "own18", func() bool { return is(valcp19.own18(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "own18", func() bool { return is(valcp19.own18(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(&valcp19), "own19", func() bool { return is(valcp19.own19(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 embedded pointer fields", val(valcp19), "own19", func() bool { return is(valcp19.own19(1)) }, five, func() bool { return is(valcp19.Deep(1)) }},
		{"chain of 19 fields", val(&valcp19), "Nope", nil, nil, nil},
		{"chain of 19 fields", val(&valcp19), "nope", nil, nil, nil},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Deep", func() bool { return is(valcp20.Deep(1)) }, five, func() bool { return is(valcp20.deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Deep", func() bool { return is(valcp20.Deep(1)) }, five, func() bool { return is(valcp20.deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "deep", func() bool { return is(valcp20.deep(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "deep", func() bool { return is(valcp20.deep(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "DeepP", func() bool { return is(valcp20.DeepP(1)) }, five, func() bool { return is(valcp20.deepP(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "DeepP", func() bool { return is(valcp20.DeepP(1)) }, five, func() bool { return is(valcp20.deepP(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "deepP", func() bool { return is(valcp20.deepP(1)) }, five, func() bool { return is(valcp20.DeepP(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "deepP", func() bool { return is(valcp20.deepP(1)) }, five, func() bool { return is(valcp20.DeepP(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "DeepFieldP", func() bool { return is(valcp20.DeepFieldP(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "DeepFieldP", func() bool { return is(valcp20.DeepFieldP(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Decoy", func() bool { return is(valcp20.Decoy(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Decoy", func() bool { return is(valcp20.Decoy(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "decoy", func() bool { return is(valcp20.decoy(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "decoy", func() bool { return is(valcp20.decoy(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Own1", func() bool { return is(valcp20.Own1(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Own1", func() bool { return is(valcp20.Own1(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Own2", func() bool { return is(valcp20.Own2(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Own2", func() bool { return is(valcp20.Own2(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Own10", func() bool { return is(valcp20.Own10(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Own10", func() bool { return is(valcp20.Own10(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Own19", func() bool { return is(valcp20.Own19(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Own19", func() bool { return is(valcp20.Own19(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "Own20", func() bool { return is(valcp20.Own20(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "Own20", func() bool { return is(valcp20.Own20(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "own1", func() bool { return is(valcp20.own1(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "own1", func() bool { return is(valcp20.own1(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "own2", func() bool { return is(valcp20.own2(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "own2", func() bool { return is(valcp20.own2(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "own10", func() bool { return is(valcp20.own10(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "own10", func() bool { return is(valcp20.own10(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "own19", func() bool { return is(valcp20.own19(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "own19", func() bool { return is(valcp20.own19(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(&valcp20), "own20", func() bool { return is(valcp20.own20(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 embedded pointer fields", val(valcp20), "own20", func() bool { return is(valcp20.own20(1)) }, five, func() bool { return is(valcp20.Deep(1)) }},
		{"chain of 20 fields", val(&valcp20), "Nope", nil, nil, nil},
		{"chain of 20 fields", val(&valcp20), "nope", nil, nil, nil},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Deep", func() bool { return is(valcp21.Deep(1)) }, five, func() bool { return is(valcp21.deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Deep", func() bool { return is(valcp21.Deep(1)) }, five, func() bool { return is(valcp21.deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "deep", func() bool { return is(valcp21.deep(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "deep", func() bool { return is(valcp21.deep(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "DeepP", func() bool { return is(valcp21.DeepP(1)) }, five, func() bool { return is(valcp21.deepP(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "DeepP", func() bool { return is(valcp21.DeepP(1)) }, five, func() bool { return is(valcp21.deepP(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "deepP", func() bool { return is(valcp21.deepP(1)) }, five, func() bool { return is(valcp21.DeepP(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "deepP", func() bool { return is(valcp21.deepP(1)) }, five, func() bool { return is(valcp21.DeepP(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "DeepFieldP", func() bool { return is(valcp21.DeepFieldP(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "DeepFieldP", func() bool { return is(valcp21.DeepFieldP(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Decoy", func() bool { return is(valcp21.Decoy(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Decoy", func() bool { return is(valcp21.Decoy(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "decoy", func() bool { return is(valcp21.decoy(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "decoy", func() bool { return is(valcp21.decoy(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Own1", func() bool { return is(valcp21.Own1(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Own1", func() bool { return is(valcp21.Own1(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Own2", func() bool { return is(valcp21.Own2(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Own2", func() bool { return is(valcp21.Own2(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Own10", func() bool { return is(valcp21.Own10(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Own10", func() bool { return is(valcp21.Own10(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Own20", func() bool { return is(valcp21.Own20(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Own20", func() bool { return is(valcp21.Own20(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "Own21", func() bool { return is(valcp21.Own21(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "Own21", func() bool { return is(valcp21.Own21(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "own1", func() bool { return is(valcp21.own1(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "own1", func() bool { return is(valcp21.own1(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "own2", func() bool { return is(valcp21.own2(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "own2", func() bool { return is(valcp21.own2(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "own10", func() bool { return is(valcp21.own10(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "own10", func() bool { return is(valcp21.own10(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "own20", func() bool { return is(valcp21.own20(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "own20", func() bool { return is(valcp21.own20(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(&valcp21), "own21", func() bool { return is(valcp21.own21(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 embedded pointer fields", val(valcp21), "own21", func() bool { return is(valcp21.own21(1)) }, five, func() bool { return is(valcp21.Deep(1)) }},
		{"chain of 21 fields", val(&valcp21), "Nope", nil, nil, nil},
		{"chain of 21 fields", val(&valcp21), "nope", nil, nil, nil},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Deep", func() bool { return is(valcp22.Deep(1)) }, five, func() bool { return is(valcp22.deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Deep", func() bool { return is(valcp22.Deep(1)) }, five, func() bool { return is(valcp22.deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "deep", func() bool { return is(valcp22.deep(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "deep", func() bool { return is(valcp22.deep(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "DeepP", func() bool { return is(valcp22.DeepP(1)) }, five, func() bool { return is(valcp22.deepP(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "DeepP", func() bool { return is(valcp22.DeepP(1)) }, five, func() bool { return is(valcp22.deepP(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "deepP", func() bool { return is(valcp22.deepP(1)) }, five, func() bool { return is(valcp22.DeepP(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "deepP", func() bool { return is(valcp22.deepP(1)) }, five, func() bool { return is(valcp22.DeepP(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "DeepFieldP", func() bool { return is(valcp22.DeepFieldP(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "DeepFieldP", func() bool { return is(valcp22.DeepFieldP(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Decoy", func() bool { return is(valcp22.Decoy(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Decoy", func() bool { return is(valcp22.Decoy(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "decoy", func() bool { return is(valcp22.decoy(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "decoy", func() bool { return is(valcp22.decoy(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Own1", func() bool { return is(valcp22.Own1(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Own1", func() bool { return is(valcp22.Own1(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Own2", func() bool { return is(valcp22.Own2(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Own2", func() bool { return is(valcp22.Own2(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Own11", func() bool { return is(valcp22.Own11(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Own11", func() bool { return is(valcp22.Own11(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Own21", func() bool { return is(valcp22.Own21(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Own21", func() bool { return is(valcp22.Own21(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "Own22", func() bool { return is(valcp22.Own22(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "Own22", func() bool { return is(valcp22.Own22(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "own1", func() bool { return is(valcp22.own1(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "own1", func() bool { return is(valcp22.own1(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "own2", func() bool { return is(valcp22.own2(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "own2", func() bool { return is(valcp22.own2(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "own11", func() bool { return is(valcp22.own11(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "own11", func() bool { return is(valcp22.own11(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "own21", func() bool { return is(valcp22.own21(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "own21", func() bool { return is(valcp22.own21(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(&valcp22), "own22", func() bool { return is(valcp22.own22(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 embedded pointer fields", val(valcp22), "own22", func() bool { return is(valcp22.own22(1)) }, five, func() bool { return is(valcp22.Deep(1)) }},
		{"chain of 22 fields", val(&valcp22), "Nope", nil, nil, nil},
		{"chain of 22 fields", val(&valcp22), "nope", nil, nil, nil},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Deep", func() bool { return is(valcp23.Deep(1)) }, five, func() bool { return is(valcp23.deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Deep", func() bool { return is(valcp23.Deep(1)) }, five, func() bool { return is(valcp23.deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "deep", func() bool { return is(valcp23.deep(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "deep", func() bool { return is(valcp23.deep(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "DeepP", func() bool { return is(valcp23.DeepP(1)) }, five, func() bool { return is(valcp23.deepP(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "DeepP", func() bool { return is(valcp23.DeepP(1)) }, five, func() bool { return is(valcp23.deepP(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "deepP", func() bool { return is(valcp23.deepP(1)) }, five, func() bool { return is(valcp23.DeepP(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "deepP", func() bool { return is(valcp23.deepP(1)) }, five, func() bool { return is(valcp23.DeepP(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "DeepFieldP", func() bool { return is(valcp23.DeepFieldP(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "DeepFieldP", func() bool { return is(valcp23.DeepFieldP(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Decoy", func() bool { return is(valcp23.Decoy(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Decoy", func() bool { return is(valcp23.Decoy(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "decoy", func() bool { return is(valcp23.decoy(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "decoy", func() bool { return is(valcp23.decoy(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Own1", func() bool { return is(valcp23.Own1(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Own1", func() bool { return is(valcp23.Own1(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Own2", func() bool { return is(valcp23.Own2(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Own2", func() bool { return is(valcp23.Own2(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Own11", func() bool { return is(valcp23.Own11(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Own11", func() bool { return is(valcp23.Own11(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Own22", func() bool { return is(valcp23.Own22(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Own22", func() bool { return is(valcp23.Own22(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "Own23", func() bool { return is(valcp23.Own23(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "Own23", func() bool { return is(valcp23.Own23(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "own1", func() bool { return is(valcp23.own1(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "own1", func() bool { return is(valcp23.own1(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "own2", func() bool { return is(valcp23.own2(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "own2", func() bool { return is(valcp23.own2(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "own11", func() bool { return is(valcp23.own11(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "own11", func() bool { return is(valcp23.own11(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "own22", func() bool { return is(valcp23.own22(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "own22", func() bool { return is(valcp23.own22(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(&valcp23), "own23", func() bool { return is(valcp23.own23(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 embedded pointer fields", val(valcp23), "own23", func() bool { return is(valcp23.own23(1)) }, five, func() bool { return is(valcp23.Deep(1)) }},
		{"chain of 23 fields", val(&valcp23), "Nope", nil, nil, nil},
		{"chain of 23 fields", val(&valcp23), "nope", nil, nil, nil},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Deep", func() bool { return is(valcp24.Deep(1)) }, five, func() bool { return is(valcp24.deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Deep", func() bool { return is(valcp24.Deep(1)) }, five, func() bool { return is(valcp24.deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "deep", func() bool { return is(valcp24.deep(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "deep", func() bool { return is(valcp24.deep(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "DeepP", func() bool { return is(valcp24.DeepP(1)) }, five, func() bool { return is(valcp24.deepP(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "DeepP", func() bool { return is(valcp24.DeepP(1)) }, five, func() bool { return is(valcp24.deepP(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "deepP", func() bool { return is(valcp24.deepP(1)) }, five, func() bool { return is(valcp24.DeepP(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "deepP", func() bool { return is(valcp24.deepP(1)) }, five, func() bool { return is(valcp24.DeepP(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "DeepFieldP", func() bool { return is(valcp24.DeepFieldP(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "DeepFieldP", func() bool { return is(valcp24.DeepFieldP(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Decoy", func() bool { return is(valcp24.Decoy(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Decoy", func() bool { return is(valcp24.Decoy(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "decoy", func() bool { return is(valcp24.decoy(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "decoy", func() bool { return is(valcp24.decoy(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Own1", func() bool { return is(valcp24.Own1(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Own1", func() bool { return is(valcp24.Own1(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Own2", func() bool { return is(valcp24.Own2(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Own2", func() bool { return is(valcp24.Own2(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Own12", func() bool { return is(valcp24.Own12(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Own12", func() bool { return is(valcp24.Own12(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Own23", func() bool { return is(valcp24.Own23(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Own23", func() bool { return is(valcp24.Own23(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "Own24", func() bool { return is(valcp24.Own24(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "Own24", func() bool { return is(valcp24.Own24(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "own1", func() bool { return is(valcp24.own1(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "own1", func() bool { return is(valcp24.own1(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "own2", func() bool { return is(valcp24.own2(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "own2", func() bool { return is(valcp24.own2(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "own12", func() bool { return is(valcp24.own12(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "own12", func() bool { return is(valcp24.own12(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "own23", func() bool { return is(valcp24.own23(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "own23", func() bool { return is(valcp24.own23(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(&valcp24), "own24", func() bool { return is(valcp24.own24(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 embedded pointer fields", val(valcp24), "own24", func() bool { return is(valcp24.own24(1)) }, five, func() bool { return is(valcp24.Deep(1)) }},
		{"chain of 24 fields", val(&valcp24), "Nope", nil, nil, nil},
		{"chain of 24 fields", val(&valcp24), "nope", nil, nil, nil},
		{"chain of 1 mixed fields", val(&valcm1), "Deep", func() bool { return is(valcm1.Deep(1)) }, five, func() bool { return is(valcm1.deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "Deep", func() bool { return is(valcm1.Deep(1)) }, five, func() bool { return is(valcm1.deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "deep", func() bool { return is(valcm1.deep(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "deep", func() bool { return is(valcm1.deep(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "DeepP", func() bool { return is(valcm1.DeepP(1)) }, five, func() bool { return is(valcm1.deepP(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "DeepP", func() bool { return is(valcm1.DeepP(1)) }, five, func() bool { return is(valcm1.deepP(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "deepP", func() bool { return is(valcm1.deepP(1)) }, five, func() bool { return is(valcm1.DeepP(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "deepP", func() bool { return is(valcm1.deepP(1)) }, five, func() bool { return is(valcm1.DeepP(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "DeepFieldM", func() bool { return is(valcm1.DeepFieldM(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "DeepFieldM", func() bool { return is(valcm1.DeepFieldM(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "Decoy", func() bool { return is(valcm1.Decoy(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "Decoy", func() bool { return is(valcm1.Decoy(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "decoy", func() bool { return is(valcm1.decoy(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "decoy", func() bool { return is(valcm1.decoy(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "Own1", func() bool { return is(valcm1.Own1(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "Own1", func() bool { return is(valcm1.Own1(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(&valcm1), "own1", func() bool { return is(valcm1.own1(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 mixed fields", val(valcm1), "own1", func() bool { return is(valcm1.own1(1)) }, five, func() bool { return is(valcm1.Deep(1)) }},
		{"chain of 1 fields", val(&valcm1), "Nope", nil, nil, nil},
		{"chain of 1 fields", val(&valcm1), "nope", nil, nil, nil},
		{"chain of 2 mixed fields", val(&valcm2), "Deep", func() bool { return is(valcm2.Deep(1)) }, five, func() bool { return is(valcm2.deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "Deep", func() bool { return is(valcm2.Deep(1)) }, five, func() bool { return is(valcm2.deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "deep", func() bool { return is(valcm2.deep(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "deep", func() bool { return is(valcm2.deep(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "DeepP", func() bool { return is(valcm2.DeepP(1)) }, five, func() bool { return is(valcm2.deepP(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "DeepP", func() bool { return is(valcm2.DeepP(1)) }, five, func() bool { return is(valcm2.deepP(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "deepP", func() bool { return is(valcm2.deepP(1)) }, five, func() bool { return is(valcm2.DeepP(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "deepP", func() bool { return is(valcm2.deepP(1)) }, five, func() bool { return is(valcm2.DeepP(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "DeepFieldM", func() bool { return is(valcm2.DeepFieldM(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "DeepFieldM", func() bool { return is(valcm2.DeepFieldM(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "Decoy", func() bool { return is(valcm2.Decoy(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "Decoy", func() bool { return is(valcm2.Decoy(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "decoy", func() bool { return is(valcm2.decoy(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "decoy", func() bool { return is(valcm2.decoy(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "Own1", func() bool { return is(valcm2.Own1(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "Own1", func() bool { return is(valcm2.Own1(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "Own2", func() bool { return is(valcm2.Own2(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "Own2", func() bool { return is(valcm2.Own2(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "own1", func() bool { return is(valcm2.own1(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "own1", func() bool { return is(valcm2.own1(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(&valcm2), "own2", func() bool { return is(valcm2.own2(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 mixed fields", val(valcm2), "own2", func() bool { return is(valcm2.own2(1)) }, five, func() bool { return is(valcm2.Deep(1)) }},
		{"chain of 2 fields", val(&valcm2), "Nope", nil, nil, nil},
		{"chain of 2 fields", val(&valcm2), "nope", nil, nil, nil},
		{"chain of 3 mixed fields", val(&valcm3), "Deep", func() bool { return is(valcm3.Deep(1)) }, five, func() bool { return is(valcm3.deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "Deep", func() bool { return is(valcm3.Deep(1)) }, five, func() bool { return is(valcm3.deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "deep", func() bool { return is(valcm3.deep(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "deep", func() bool { return is(valcm3.deep(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "DeepP", func() bool { return is(valcm3.DeepP(1)) }, five, func() bool { return is(valcm3.deepP(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "DeepP", func() bool { return is(valcm3.DeepP(1)) }, five, func() bool { return is(valcm3.deepP(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "deepP", func() bool { return is(valcm3.deepP(1)) }, five, func() bool { return is(valcm3.DeepP(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "deepP", func() bool { return is(valcm3.deepP(1)) }, five, func() bool { return is(valcm3.DeepP(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "DeepFieldM", func() bool { return is(valcm3.DeepFieldM(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "DeepFieldM", func() bool { return is(valcm3.DeepFieldM(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "Decoy", func() bool { return is(valcm3.Decoy(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "Decoy", func() bool { return is(valcm3.Decoy(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "decoy", func() bool { return is(valcm3.decoy(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "decoy", func() bool { return is(valcm3.decoy(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "Own1", func() bool { return is(valcm3.Own1(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "Own1", func() bool { return is(valcm3.Own1(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "Own2", func() bool { return is(valcm3.Own2(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "Own2", func() bool { return is(valcm3.Own2(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "Own3", func() bool { return is(valcm3.Own3(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "Own3", func() bool { return is(valcm3.Own3(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "own1", func() bool { return is(valcm3.own1(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "own1", func() bool { return is(valcm3.own1(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "own2", func() bool { return is(valcm3.own2(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "own2", func() bool { return is(valcm3.own2(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(&valcm3), "own3", func() bool { return is(valcm3.own3(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 mixed fields", val(valcm3), "own3", func() bool { return is(valcm3.own3(1)) }, five, func() bool { return is(valcm3.Deep(1)) }},
		{"chain of 3 fields", val(&valcm3), "Nope", nil, nil, nil},
		{"chain of 3 fields", val(&valcm3), "nope", nil, nil, nil},
		{"chain of 4 mixed fields", val(&valcm4), "Deep", func() bool { return is(valcm4.Deep(1)) }, five, func() bool { return is(valcm4.deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Deep", func() bool { return is(valcm4.Deep(1)) }, five, func() bool { return is(valcm4.deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "deep", func() bool { return is(valcm4.deep(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "deep", func() bool { return is(valcm4.deep(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "DeepP", func() bool { return is(valcm4.DeepP(1)) }, five, func() bool { return is(valcm4.deepP(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "DeepP", func() bool { return is(valcm4.DeepP(1)) }, five, func() bool { return is(valcm4.deepP(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "deepP", func() bool { return is(valcm4.deepP(1)) }, five, func() bool { return is(valcm4.DeepP(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "deepP", func() bool { return is(valcm4.deepP(1)) }, five, func() bool { return is(valcm4.DeepP(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "DeepFieldM", func() bool { return is(valcm4.DeepFieldM(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "DeepFieldM", func() bool { return is(valcm4.DeepFieldM(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "Decoy", func() bool { return is(valcm4.Decoy(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Decoy", func() bool { return is(valcm4.Decoy(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "decoy", func() bool { return is(valcm4.decoy(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "decoy", func() bool { return is(valcm4.decoy(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "Own1", func() bool { return is(valcm4.Own1(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Own1", func() bool { return is(valcm4.Own1(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "Own2", func() bool { return is(valcm4.Own2(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Own2", func() bool { return is(valcm4.Own2(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "Own3", func() bool { return is(valcm4.Own3(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Own3", func() bool { return is(valcm4.Own3(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "Own4", func() bool { return is(valcm4.Own4(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "Own4", func() bool { return is(valcm4.Own4(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "own1", func() bool { return is(valcm4.own1(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "own1", func() bool { return is(valcm4.own1(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "own2", func() bool { return is(valcm4.own2(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "own2", func() bool { return is(valcm4.own2(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "own3", func() bool { return is(valcm4.own3(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "own3", func() bool { return is(valcm4.own3(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(&valcm4), "own4", func() bool { return is(valcm4.own4(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 mixed fields", val(valcm4), "own4", func() bool { return is(valcm4.own4(1)) }, five, func() bool { return is(valcm4.Deep(1)) }},
		{"chain of 4 fields", val(&valcm4), "Nope", nil, nil, nil},
		{"chain of 4 fields", val(&valcm4), "nope", nil, nil, nil},
		{"chain of 5 mixed fields", val(&valcm5), "Deep", func() bool { return is(valcm5.Deep(1)) }, five, func() bool { return is(valcm5.deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Deep", func() bool { return is(valcm5.Deep(1)) }, five, func() bool { return is(valcm5.deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "deep", func() bool { return is(valcm5.deep(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "deep", func() bool { return is(valcm5.deep(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "DeepP", func() bool { return is(valcm5.DeepP(1)) }, five, func() bool { return is(valcm5.deepP(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "DeepP", func() bool { return is(valcm5.DeepP(1)) }, five, func() bool { return is(valcm5.deepP(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "deepP", func() bool { return is(valcm5.deepP(1)) }, five, func() bool { return is(valcm5.DeepP(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "deepP", func() bool { return is(valcm5.deepP(1)) }, five, func() bool { return is(valcm5.DeepP(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "DeepFieldM", func() bool { return is(valcm5.DeepFieldM(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "DeepFieldM", func() bool { return is(valcm5.DeepFieldM(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "Decoy", func() bool { return is(valcm5.Decoy(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Decoy", func() bool { return is(valcm5.Decoy(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "decoy", func() bool { return is(valcm5.decoy(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "decoy", func() bool { return is(valcm5.decoy(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "Own1", func() bool { return is(valcm5.Own1(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Own1", func() bool { return is(valcm5.Own1(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "Own2", func() bool { return is(valcm5.Own2(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Own2", func() bool { return is(valcm5.Own2(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "Own4", func() bool { return is(valcm5.Own4(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Own4", func() bool { return is(valcm5.Own4(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "Own5", func() bool { return is(valcm5.Own5(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "Own5", func() bool { return is(valcm5.Own5(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "own1", func() bool { return is(valcm5.own1(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "own1", func() bool { return is(valcm5.own1(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "own2", func() bool { return is(valcm5.own2(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "own2", func() bool { return is(valcm5.own2(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "own4", func() bool { return is(valcm5.own4(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "own4", func() bool { return is(valcm5.own4(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(&valcm5), "own5", func() bool { return is(valcm5.own5(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 mixed fields", val(valcm5), "own5", func() bool { return is(valcm5.own5(1)) }, five, func() bool { return is(valcm5.Deep(1)) }},
		{"chain of 5 fields", val(&valcm5), "Nope", nil, nil, nil},
		{"chain of 5 fields", val(&valcm5), "nope", nil, nil, nil},
		{"chain of 6 mixed fields", val(&valcm6), "Deep", func() bool { return is(valcm6.Deep(1)) }, five, func() bool { return is(valcm6.deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Deep", func() bool { return is(valcm6.Deep(1)) }, five, func() bool { return is(valcm6.deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "deep", func() bool { return is(valcm6.deep(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "deep", func() bool { return is(valcm6.deep(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "DeepP", func() bool { return is(valcm6.DeepP(1)) }, five, func() bool { return is(valcm6.deepP(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "DeepP", func() bool { return is(valcm6.DeepP(1)) }, five, func() bool { return is(valcm6.deepP(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "deepP", func() bool { return is(valcm6.deepP(1)) }, five, func() bool { return is(valcm6.DeepP(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "deepP", func() bool { return is(valcm6.deepP(1)) }, five, func() bool { return is(valcm6.DeepP(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "DeepFieldM", func() bool { return is(valcm6.DeepFieldM(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "DeepFieldM", func() bool { return is(valcm6.DeepFieldM(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Decoy", func() bool { return is(valcm6.Decoy(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Decoy", func() bool { return is(valcm6.Decoy(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "decoy", func() bool { return is(valcm6.decoy(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "decoy", func() bool { return is(valcm6.decoy(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Own1", func() bool { return is(valcm6.Own1(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Own1", func() bool { return is(valcm6.Own1(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Own2", func() bool { return is(valcm6.Own2(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Own2", func() bool { return is(valcm6.Own2(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Own3", func() bool { return is(valcm6.Own3(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Own3", func() bool { return is(valcm6.Own3(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Own5", func() bool { return is(valcm6.Own5(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Own5", func() bool { return is(valcm6.Own5(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "Own6", func() bool { return is(valcm6.Own6(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "Own6", func() bool { return is(valcm6.Own6(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "own1", func() bool { return is(valcm6.own1(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "own1", func() bool { return is(valcm6.own1(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "own2", func() bool { return is(valcm6.own2(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "own2", func() bool { return is(valcm6.own2(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "own3", func() bool { return is(valcm6.own3(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "own3", func() bool { return is(valcm6.own3(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "own5", func() bool { return is(valcm6.own5(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "own5", func() bool { return is(valcm6.own5(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(&valcm6), "own6", func() bool { return is(valcm6.own6(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 mixed fields", val(valcm6), "own6", func() bool { return is(valcm6.own6(1)) }, five, func() bool { return is(valcm6.Deep(1)) }},
		{"chain of 6 fields", val(&valcm6), "Nope", nil, nil, nil},
		{"chain of 6 fields", val(&valcm6), "nope", nil, nil, nil},
		{"chain of 7 mixed fields", val(&valcm7), "Deep", func() bool { return is(valcm7.Deep(1)) }, five, func() bool { return is(valcm7.deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Deep", func() bool { return is(valcm7.Deep(1)) }, five, func() bool { return is(valcm7.deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "deep", func() bool { return is(valcm7.deep(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "deep", func() bool { return is(valcm7.deep(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "DeepP", func() bool { return is(valcm7.DeepP(1)) }, five, func() bool { return is(valcm7.deepP(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "DeepP", func() bool { return is(valcm7.DeepP(1)) }, five, func() bool { return is(valcm7.deepP(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "deepP", func() bool { return is(valcm7.deepP(1)) }, five, func() bool { return is(valcm7.DeepP(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "deepP", func() bool { return is(valcm7.deepP(1)) }, five, func() bool { return is(valcm7.DeepP(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "DeepFieldM", func() bool { return is(valcm7.DeepFieldM(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "DeepFieldM", func() bool { return is(valcm7.DeepFieldM(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Decoy", func() bool { return is(valcm7.Decoy(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Decoy", func() bool { return is(valcm7.Decoy(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "decoy", func() bool { return is(valcm7.decoy(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "decoy", func() bool { return is(valcm7.decoy(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Own1", func() bool { return is(valcm7.Own1(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Own1", func() bool { return is(valcm7.Own1(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Own2", func() bool { return is(valcm7.Own2(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Own2", func() bool { return is(valcm7.Own2(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Own3", func() bool { return is(valcm7.Own3(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Own3", func() bool { return is(valcm7.Own3(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Own6", func() bool { return is(valcm7.Own6(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Own6", func() bool { return is(valcm7.Own6(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "Own7", func() bool { return is(valcm7.Own7(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "Own7", func() bool { return is(valcm7.Own7(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "own1", func() bool { return is(valcm7.own1(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "own1", func() bool { return is(valcm7.own1(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "own2", func() bool { return is(valcm7.own2(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "own2", func() bool { return is(valcm7.own2(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "own3", func() bool { return is(valcm7.own3(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "own3", func() bool { return is(valcm7.own3(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "own6", func() bool { return is(valcm7.own6(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "own6", func() bool { return is(valcm7.own6(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(&valcm7), "own7", func() bool { return is(valcm7.own7(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 mixed fields", val(valcm7), "own7", func() bool { return is(valcm7.own7(1)) }, five, func() bool { return is(valcm7.Deep(1)) }},
		{"chain of 7 fields", val(&valcm7), "Nope", nil, nil, nil},
		{"chain of 7 fields", val(&valcm7), "nope", nil, nil, nil},
		{"chain of 8 mixed fields", val(&valcm8), "Deep", func() bool { return is(valcm8.Deep(1)) }, five, func() bool { return is(valcm8.deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Deep", func() bool { return is(valcm8.Deep(1)) }, five, func() bool { return is(valcm8.deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "deep", func() bool { return is(valcm8.deep(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "deep", func() bool { return is(valcm8.deep(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "DeepP", func() bool { return is(valcm8.DeepP(1)) }, five, func() bool { return is(valcm8.deepP(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "DeepP", func() bool { return is(valcm8.DeepP(1)) }, five, func() bool { return is(valcm8.deepP(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "deepP", func() bool { return is(valcm8.deepP(1)) }, five, func() bool { return is(valcm8.DeepP(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "deepP", func() bool { return is(valcm8.deepP(1)) }, five, func() bool { return is(valcm8.DeepP(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "DeepFieldM", func() bool { return is(valcm8.DeepFieldM(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "DeepFieldM", func() bool { return is(valcm8.DeepFieldM(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Decoy", func() bool { return is(valcm8.Decoy(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Decoy", func() bool { return is(valcm8.Decoy(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "decoy", func() bool { return is(valcm8.decoy(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "decoy", func() bool { return is(valcm8.decoy(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Own1", func() bool { return is(valcm8.Own1(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Own1", func() bool { return is(valcm8.Own1(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Own2", func() bool { return is(valcm8.Own2(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Own2", func() bool { return is(valcm8.Own2(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Own4", func() bool { return is(valcm8.Own4(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Own4", func() bool { return is(valcm8.Own4(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Own7", func() bool { return is(valcm8.Own7(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Own7", func() bool { return is(valcm8.Own7(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "Own8", func() bool { return is(valcm8.Own8(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "Own8", func() bool { return is(valcm8.Own8(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "own1", func() bool { return is(valcm8.own1(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "own1", func() bool { return is(valcm8.own1(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "own2", func() bool { return is(valcm8.own2(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "own2", func() bool { return is(valcm8.own2(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "own4", func() bool { return is(valcm8.own4(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "own4", func() bool { return is(valcm8.own4(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "own7", func() bool { return is(valcm8.own7(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "own7", func() bool { return is(valcm8.own7(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(&valcm8), "own8", func() bool { return is(valcm8.own8(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 mixed fields", val(valcm8), "own8", func() bool { return is(valcm8.own8(1)) }, five, func() bool { return is(valcm8.Deep(1)) }},
		{"chain of 8 fields", val(&valcm8), "Nope", nil, nil, nil},
		{"chain of 8 fields", val(&valcm8), "nope", nil, nil, nil},
		{"chain of 9 mixed fields", val(&valcm9), "Deep", func() bool { return is(valcm9.Deep(1)) }, five, func() bool { return is(valcm9.deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Deep", func() bool { return is(valcm9.Deep(1)) }, five, func() bool { return is(valcm9.deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "deep", func() bool { return is(valcm9.deep(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "deep", func() bool { return is(valcm9.deep(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "DeepP", func() bool { return is(valcm9.DeepP(1)) }, five, func() bool { return is(valcm9.deepP(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "DeepP", func() bool { return is(valcm9.DeepP(1)) }, five, func() bool { return is(valcm9.deepP(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "deepP", func() bool { return is(valcm9.deepP(1)) }, five, func() bool { return is(valcm9.DeepP(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "deepP", func() bool { return is(valcm9.deepP(1)) }, five, func() bool { return is(valcm9.DeepP(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "DeepFieldM", func() bool { return is(valcm9.DeepFieldM(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "DeepFieldM", func() bool { return is(valcm9.DeepFieldM(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Decoy", func() bool { return is(valcm9.Decoy(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Decoy", func() bool { return is(valcm9.Decoy(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "decoy", func() bool { return is(valcm9.decoy(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "decoy", func() bool { return is(valcm9.decoy(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Own1", func() bool { return is(valcm9.Own1(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Own1", func() bool { return is(valcm9.Own1(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Own2", func() bool { return is(valcm9.Own2(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Own2", func() bool { return is(valcm9.Own2(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Own4", func() bool { return is(valcm9.Own4(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Own4", func() bool { return is(valcm9.Own4(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Own8", func() bool { return is(valcm9.Own8(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Own8", func() bool { return is(valcm9.Own8(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "Own9", func() bool { return is(valcm9.Own9(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "Own9", func() bool { return is(valcm9.Own9(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "own1", func() bool { return is(valcm9.own1(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "own1", func() bool { return is(valcm9.own1(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "own2", func() bool { return is(valcm9.own2(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "own2", func() bool { return is(valcm9.own2(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "own4", func() bool { return is(valcm9.own4(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "own4", func() bool { return is(valcm9.own4(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "own8", func() bool { return is(valcm9.own8(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "own8", func() bool { return is(valcm9.own8(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(&valcm9), "own9", func() bool { return is(valcm9.own9(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 mixed fields", val(valcm9), "own9", func() bool { return is(valcm9.own9(1)) }, five, func() bool { return is(valcm9.Deep(1)) }},
		{"chain of 9 fields", val(&valcm9), "Nope", nil, nil, nil},
		{"chain of 9 fields", val(&valcm9), "nope", nil, nil, nil},
		{"chain of 10 mixed fields", val(&valcm10), "Deep", func() bool { return is(valcm10.Deep(1)) }, five, func() bool { return is(valcm10.deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Deep", func() bool { return is(valcm10.Deep(1)) }, five, func() bool { return is(valcm10.deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "deep", func() bool { return is(valcm10.deep(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "deep", func() bool { return is(valcm10.deep(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "DeepP", func() bool { return is(valcm10.DeepP(1)) }, five, func() bool { return is(valcm10.deepP(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "DeepP", func() bool { return is(valcm10.DeepP(1)) }, five, func() bool { return is(valcm10.deepP(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "deepP", func() bool { return is(valcm10.deepP(1)) }, five, func() bool { return is(valcm10.DeepP(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "deepP", func() bool { return is(valcm10.deepP(1)) }, five, func() bool { return is(valcm10.DeepP(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "DeepFieldM", func() bool { return is(valcm10.DeepFieldM(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "DeepFieldM", func() bool { return is(valcm10.DeepFieldM(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Decoy", func() bool { return is(valcm10.Decoy(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Decoy", func() bool { return is(valcm10.Decoy(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "decoy", func() bool { return is(valcm10.decoy(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "decoy", func() bool { return is(valcm10.decoy(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Own1", func() bool { return is(valcm10.Own1(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Own1", func() bool { return is(valcm10.Own1(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Own2", func() bool { return is(valcm10.Own2(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Own2", func() bool { return is(valcm10.Own2(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Own5", func() bool { return is(valcm10.Own5(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Own5", func() bool { return is(valcm10.Own5(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Own9", func() bool { return is(valcm10.Own9(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Own9", func() bool { return is(valcm10.Own9(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "Own10", func() bool { return is(valcm10.Own10(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "Own10", func() bool { return is(valcm10.Own10(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "own1", func() bool { return is(valcm10.own1(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "own1", func() bool { return is(valcm10.own1(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "own2", func() bool { return is(valcm10.own2(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "own2", func() bool { return is(valcm10.own2(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "own5", func() bool { return is(valcm10.own5(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "own5", func() bool { return is(valcm10.own5(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "own9", func() bool { return is(valcm10.own9(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "own9", func() bool { return is(valcm10.own9(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(&valcm10), "own10", func() bool { return is(valcm10.own10(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 mixed fields", val(valcm10), "own10", func() bool { return is(valcm10.own10(1)) }, five, func() bool { return is(valcm10.Deep(1)) }},
		{"chain of 10 fields", val(&valcm10), "Nope", nil, nil, nil},
		{"chain of 10 fields", val(&valcm10), "nope", nil, nil, nil},
		{"chain of 11 mixed fields", val(&valcm11), "Deep", func() bool { return is(valcm11.Deep(1)) }, five, func() bool { return is(valcm11.deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Deep", func() bool { return is(valcm11.Deep(1)) }, five, func() bool { return is(valcm11.deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "deep", func() bool { return is(valcm11.deep(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "deep", func() bool { return is(valcm11.deep(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "DeepP", func() bool { return is(valcm11.DeepP(1)) }, five, func() bool { return is(valcm11.deepP(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "DeepP", func() bool { return is(valcm11.DeepP(1)) }, five, func() bool { return is(valcm11.deepP(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "deepP", func() bool { return is(valcm11.deepP(1)) }, five, func() bool { return is(valcm11.DeepP(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "deepP", func() bool { return is(valcm11.deepP(1)) }, five, func() bool { return is(valcm11.DeepP(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "DeepFieldM", func() bool { return is(valcm11.DeepFieldM(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "DeepFieldM", func() bool { return is(valcm11.DeepFieldM(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Decoy", func() bool { return is(valcm11.Decoy(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Decoy", func() bool { return is(valcm11.Decoy(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "decoy", func() bool { return is(valcm11.decoy(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "decoy", func() bool { return is(valcm11.decoy(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Own1", func() bool { return is(valcm11.Own1(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Own1", func() bool { return is(valcm11.Own1(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Own2", func() bool { return is(valcm11.Own2(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Own2", func() bool { return is(valcm11.Own2(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Own5", func() bool { return is(valcm11.Own5(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Own5", func() bool { return is(valcm11.Own5(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Own10", func() bool { return is(valcm11.Own10(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Own10", func() bool { return is(valcm11.Own10(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "Own11", func() bool { return is(valcm11.Own11(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "Own11", func() bool { return is(valcm11.Own11(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "own1", func() bool { return is(valcm11.own1(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "own1", func() bool { return is(valcm11.own1(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "own2", func() bool { return is(valcm11.own2(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "own2", func() bool { return is(valcm11.own2(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "own5", func() bool { return is(valcm11.own5(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "own5", func() bool { return is(valcm11.own5(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "own10", func() bool { return is(valcm11.own10(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "own10", func() bool { return is(valcm11.own10(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(&valcm11), "own11", func() bool { return is(valcm11.own11(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 mixed fields", val(valcm11), "own11", func() bool { return is(valcm11.own11(1)) }, five, func() bool { return is(valcm11.Deep(1)) }},
		{"chain of 11 fields", val(&valcm11), "Nope", nil, nil, nil},
		{"chain of 11 fields", val(&valcm11), "nope", nil, nil, nil},
		{"chain of 12 mixed fields", val(&valcm12), "Deep", func() bool { return is(valcm12.Deep(1)) }, five, func() bool { return is(valcm12.deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Deep", func() bool { return is(valcm12.Deep(1)) }, five, func() bool { return is(valcm12.deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "deep", func() bool { return is(valcm12.deep(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "deep", func() bool { return is(valcm12.deep(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "DeepP", func() bool { return is(valcm12.DeepP(1)) }, five, func() bool { return is(valcm12.deepP(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "DeepP", func() bool { return is(valcm12.DeepP(1)) }, five, func() bool { return is(valcm12.deepP(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "deepP", func() bool { return is(valcm12.deepP(1)) }, five, func() bool { return is(valcm12.DeepP(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "deepP", func() bool { return is(valcm12.deepP(1)) }, five, func() bool { return is(valcm12.DeepP(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "DeepFieldM", func() bool { return is(valcm12.DeepFieldM(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "DeepFieldM", func() bool { return is(valcm12.DeepFieldM(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Decoy", func() bool { return is(valcm12.Decoy(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Decoy", func() bool { return is(valcm12.Decoy(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "decoy", func() bool { return is(valcm12.decoy(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "decoy", func() bool { return is(valcm12.decoy(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Own1", func() bool { return is(valcm12.Own1(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Own1", func() bool { return is(valcm12.Own1(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Own2", func() bool { return is(valcm12.Own2(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Own2", func() bool { return is(valcm12.Own2(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Own6", func() bool { return is(valcm12.Own6(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Own6", func() bool { return is(valcm12.Own6(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Own11", func() bool { return is(valcm12.Own11(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Own11", func() bool { return is(valcm12.Own11(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "Own12", func() bool { return is(valcm12.Own12(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "Own12", func() bool { return is(valcm12.Own12(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "own1", func() bool { return is(valcm12.own1(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "own1", func() bool { return is(valcm12.own1(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "own2", func() bool { return is(valcm12.own2(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "own2", func() bool { return is(valcm12.own2(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "own6", func() bool { return is(valcm12.own6(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "own6", func() bool { return is(valcm12.own6(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "own11", func() bool { return is(valcm12.own11(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "own11", func() bool { return is(valcm12.own11(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(&valcm12), "own12", func() bool { return is(valcm12.own12(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 mixed fields", val(valcm12), "own12", func() bool { return is(valcm12.own12(1)) }, five, func() bool { return is(valcm12.Deep(1)) }},
		{"chain of 12 fields", val(&valcm12), "Nope", nil, nil, nil},
		{"chain of 12 fields", val(&valcm12), "nope", nil, nil, nil},
		{"chain of 13 mixed fields", val(&valcm13), "Deep", func() bool { return is(valcm13.Deep(1)) }, five, func() bool { return is(valcm13.deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Deep", func() bool { return is(valcm13.Deep(1)) }, five, func() bool { return is(valcm13.deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "deep", func() bool { return is(valcm13.deep(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "deep", func() bool { return is(valcm13.deep(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "DeepP", func() bool { return is(valcm13.DeepP(1)) }, five, func() bool { return is(valcm13.deepP(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "DeepP", func() bool { return is(valcm13.DeepP(1)) }, five, func() bool { return is(valcm13.deepP(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "deepP", func() bool { return is(valcm13.deepP(1)) }, five, func() bool { return is(valcm13.DeepP(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "deepP", func() bool { return is(valcm13.deepP(1)) }, five, func() bool { return is(valcm13.DeepP(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "DeepFieldM", func() bool { return is(valcm13.DeepFieldM(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "DeepFieldM", func() bool { return is(valcm13.DeepFieldM(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Decoy", func() bool { return is(valcm13.Decoy(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Decoy", func() bool { return is(valcm13.Decoy(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "decoy", func() bool { return is(valcm13.decoy(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "decoy", func() bool { return is(valcm13.decoy(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Own1", func() bool { return is(valcm13.Own1(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Own1", func() bool { return is(valcm13.Own1(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Own2", func() bool { return is(valcm13.Own2(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Own2", func() bool { return is(valcm13.Own2(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Own6", func() bool { return is(valcm13.Own6(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Own6", func() bool { return is(valcm13.Own6(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Own12", func() bool { return is(valcm13.Own12(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Own12", func() bool { return is(valcm13.Own12(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "Own13", func() bool { return is(valcm13.Own13(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "Own13", func() bool { return is(valcm13.Own13(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "own1", func() bool { return is(valcm13.own1(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "own1", func() bool { return is(valcm13.own1(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "own2", func() bool { return is(valcm13.own2(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "own2", func() bool { return is(valcm13.own2(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "own6", func() bool { return is(valcm13.own6(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "own6", func() bool { return is(valcm13.own6(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "own12", func() bool { return is(valcm13.own12(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "own12", func() bool { return is(valcm13.own12(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(&valcm13), "own13", func() bool { return is(valcm13.own13(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 mixed fields", val(valcm13), "own13", func() bool { return is(valcm13.own13(1)) }, five, func() bool { return is(valcm13.Deep(1)) }},
		{"chain of 13 fields", val(&valcm13), "Nope", nil, nil, nil},
		{"chain of 13 fields", val(&valcm13), "nope", nil, nil, nil},
		{"chain of 14 mixed fields", val(&valcm14), "Deep", func() bool { return is(valcm14.Deep(1)) }, five, func() bool { return is(valcm14.deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Deep", func() bool { return is(valcm14.Deep(1)) }, five, func() bool { return is(valcm14.deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "deep", func() bool { return is(valcm14.deep(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "deep", func() bool { return is(valcm14.deep(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "DeepP", func() bool { return is(valcm14.DeepP(1)) }, five, func() bool { return is(valcm14.deepP(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "DeepP", func() bool { return is(valcm14.DeepP(1)) }, five, func() bool { return is(valcm14.deepP(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "deepP", func() bool { return is(valcm14.deepP(1)) }, five, func() bool { return is(valcm14.DeepP(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "deepP", func() bool { return is(valcm14.deepP(1)) }, five, func() bool { return is(valcm14.DeepP(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "DeepFieldM", func() bool { return is(valcm14.DeepFieldM(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "DeepFieldM", func() bool { return is(valcm14.DeepFieldM(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Decoy", func() bool { return is(valcm14.Decoy(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Decoy", func() bool { return is(valcm14.Decoy(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "decoy", func() bool { return is(valcm14.decoy(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "decoy", func() bool { return is(valcm14.decoy(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Own1", func() bool { return is(valcm14.Own1(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Own1", func() bool { return is(valcm14.Own1(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Own2", func() bool { return is(valcm14.Own2(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Own2", func() bool { return is(valcm14.Own2(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Own7", func() bool { return is(valcm14.Own7(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Own7", func() bool { return is(valcm14.Own7(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Own13", func() bool { return is(valcm14.Own13(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Own13", func() bool { return is(valcm14.Own13(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "Own14", func() bool { return is(valcm14.Own14(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "Own14", func() bool { return is(valcm14.Own14(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "own1", func() bool { return is(valcm14.own1(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "own1", func() bool { return is(valcm14.own1(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "own2", func() bool { return is(valcm14.own2(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "own2", func() bool { return is(valcm14.own2(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "own7", func() bool { return is(valcm14.own7(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "own7", func() bool { return is(valcm14.own7(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "own13", func() bool { return is(valcm14.own13(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "own13", func() bool { return is(valcm14.own13(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(&valcm14), "own14", func() bool { return is(valcm14.own14(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 mixed fields", val(valcm14), "own14", func() bool { return is(valcm14.own14(1)) }, five, func() bool { return is(valcm14.Deep(1)) }},
		{"chain of 14 fields", val(&valcm14), "Nope", nil, nil, nil},
		{"chain of 14 fields", val(&valcm14), "nope", nil, nil, nil},
		{"chain of 15 mixed fields", val(&valcm15), "Deep", func() bool { return is(valcm15.Deep(1)) }, five, func() bool { return is(valcm15.deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Deep", func() bool { return is(valcm15.Deep(1)) }, five, func() bool { return is(valcm15.deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "deep", func() bool { return is(valcm15.deep(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "deep", func() bool { return is(valcm15.deep(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "DeepP", func() bool { return is(valcm15.DeepP(1)) }, five, func() bool { return is(valcm15.deepP(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "DeepP", func() bool { return is(valcm15.DeepP(1)) }, five, func() bool { return is(valcm15.deepP(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "deepP", func() bool { return is(valcm15.deepP(1)) }, five, func() bool { return is(valcm15.DeepP(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "deepP", func() bool { return is(valcm15.deepP(1)) }, five, func() bool { return is(valcm15.DeepP(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "DeepFieldM", func() bool { return is(valcm15.DeepFieldM(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "DeepFieldM", func() bool { return is(valcm15.DeepFieldM(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Decoy", func() bool { return is(valcm15.Decoy(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Decoy", func() bool { return is(valcm15.Decoy(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "decoy", func() bool { return is(valcm15.decoy(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "decoy", func() bool { return is(valcm15.decoy(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Own1", func() bool { return is(valcm15.Own1(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Own1", func() bool { return is(valcm15.Own1(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Own2", func() bool { return is(valcm15.Own2(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Own2", func() bool { return is(valcm15.Own2(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Own7", func() bool { return is(valcm15.Own7(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Own7", func() bool { return is(valcm15.Own7(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Own14", func() bool { return is(valcm15.Own14(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Own14", func() bool { return is(valcm15.Own14(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "Own15", func() bool { return is(valcm15.Own15(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "Own15", func() bool { return is(valcm15.Own15(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "own1", func() bool { return is(valcm15.own1(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "own1", func() bool { return is(valcm15.own1(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "own2", func() bool { return is(valcm15.own2(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "own2", func() bool { return is(valcm15.own2(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "own7", func() bool { return is(valcm15.own7(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "own7", func() bool { return is(valcm15.own7(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "own14", func() bool { return is(valcm15.own14(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "own14", func() bool { return is(valcm15.own14(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(&valcm15), "own15", func() bool { return is(valcm15.own15(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 mixed fields", val(valcm15), "own15", func() bool { return is(valcm15.own15(1)) }, five, func() bool { return is(valcm15.Deep(1)) }},
		{"chain of 15 fields", val(&valcm15), "Nope", nil, nil, nil},
		{"chain of 15 fields", val(&valcm15), "nope", nil, nil, nil},
		{"chain of 16 mixed fields", val(&valcm16), "Deep", func() bool { return is(valcm16.Deep(1)) }, five, func() bool { return is(valcm16.deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Deep", func() bool { return is(valcm16.Deep(1)) }, five, func() bool { return is(valcm16.deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "deep", func() bool { return is(valcm16.deep(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "deep", func() bool { return is(valcm16.deep(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "DeepP", func() bool { return is(valcm16.DeepP(1)) }, five, func() bool { return is(valcm16.deepP(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "DeepP", func() bool { return is(valcm16.DeepP(1)) }, five, func() bool { return is(valcm16.deepP(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "deepP", func() bool { return is(valcm16.deepP(1)) }, five, func() bool { return is(valcm16.DeepP(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "deepP", func() bool { return is(valcm16.deepP(1)) }, five, func() bool { return is(valcm16.DeepP(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "DeepFieldM", func() bool { return is(valcm16.DeepFieldM(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "DeepFieldM", func() bool { return is(valcm16.DeepFieldM(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Decoy", func() bool { return is(valcm16.Decoy(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Decoy", func() bool { return is(valcm16.Decoy(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "decoy", func() bool { return is(valcm16.decoy(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "decoy", func() bool { return is(valcm16.decoy(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Own1", func() bool { return is(valcm16.Own1(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Own1", func() bool { return is(valcm16.Own1(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Own2", func() bool { return is(valcm16.Own2(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Own2", func() bool { return is(valcm16.Own2(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Own8", func() bool { return is(valcm16.Own8(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Own8", func() bool { return is(valcm16.Own8(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Own15", func() bool { return is(valcm16.Own15(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Own15", func() bool { return is(valcm16.Own15(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "Own16", func() bool { return is(valcm16.Own16(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "Own16", func() bool { return is(valcm16.Own16(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "own1", func() bool { return is(valcm16.own1(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "own1", func() bool { return is(valcm16.own1(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "own2", func() bool { return is(valcm16.own2(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "own2", func() bool { return is(valcm16.own2(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "own8", func() bool { return is(valcm16.own8(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "own8", func() bool { return is(valcm16.own8(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "own15", func() bool { return is(valcm16.own15(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "own15", func() bool { return is(valcm16.own15(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(&valcm16), "own16", func() bool { return is(valcm16.own16(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 mixed fields", val(valcm16), "own16", func() bool { return is(valcm16.own16(1)) }, five, func() bool { return is(valcm16.Deep(1)) }},
		{"chain of 16 fields", val(&valcm16), "Nope", nil, nil, nil},
		{"chain of 16 fields", val(&valcm16), "nope", nil, nil, nil},
		{"chain of 17 mixed fields", val(&valcm17), "Deep", func() bool { return is(valcm17.Deep(1)) }, five, func() bool { return is(valcm17.deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Deep", func() bool { return is(valcm17.Deep(1)) }, five, func() bool { return is(valcm17.deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "deep", func() bool { return is(valcm17.deep(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "deep", func() bool { return is(valcm17.deep(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "DeepP", func() bool { return is(valcm17.DeepP(1)) }, five, func() bool { return is(valcm17.deepP(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "DeepP", func() bool { return is(valcm17.DeepP(1)) }, five, func() bool { return is(valcm17.deepP(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "deepP", func() bool { return is(valcm17.deepP(1)) }, five, func() bool { return is(valcm17.DeepP(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "deepP", func() bool { return is(valcm17.deepP(1)) }, five, func() bool { return is(valcm17.DeepP(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "DeepFieldM", func() bool { return is(valcm17.DeepFieldM(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "DeepFieldM", func() bool { return is(valcm17.DeepFieldM(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Decoy", func() bool { return is(valcm17.Decoy(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Decoy", func() bool { return is(valcm17.Decoy(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "decoy", func() bool { return is(valcm17.decoy(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "decoy", func() bool { return is(valcm17.decoy(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Own1", func() bool { return is(valcm17.Own1(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Own1", func() bool { return is(valcm17.Own1(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Own2", func() bool { return is(valcm17.Own2(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Own2", func() bool { return is(valcm17.Own2(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Own8", func() bool { return is(valcm17.Own8(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Own8", func() bool { return is(valcm17.Own8(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Own16", func() bool { return is(valcm17.Own16(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Own16", func() bool { return is(valcm17.Own16(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "Own17", func() bool { return is(valcm17.Own17(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "Own17", func() bool { return is(valcm17.Own17(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "own1", func() bool { return is(valcm17.own1(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "own1", func() bool { return is(valcm17.own1(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "own2", func() bool { return is(valcm17.own2(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "own2", func() bool { return is(valcm17.own2(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "own8", func() bool { return is(valcm17.own8(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "own8", func() bool { return is(valcm17.own8(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "own16", func() bool { return is(valcm17.own16(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "own16", func() bool { return is(valcm17.own16(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(&valcm17), "own17", func() bool { return is(valcm17.own17(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 mixed fields", val(valcm17), "own17", func() bool { return is(valcm17.own17(1)) }, five, func() bool { return is(valcm17.Deep(1)) }},
		{"chain of 17 fields", val(&valcm17), "Nope", nil, nil, nil},
		{"chain of 17 fields", val(&valcm17), "nope", nil, nil, nil},
		{"chain of 18 mixed fields", val(&valcm18), "Deep", func() bool { return is(valcm18.Deep(1)) }, five, func() bool { return is(valcm18.deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Deep", func() bool { return is(valcm18.Deep(1)) }, five, func() bool { return is(valcm18.deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "deep", func() bool { return is(valcm18.deep(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "deep", func() bool { return is(valcm18.deep(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "DeepP", func() bool { return is(valcm18.DeepP(1)) }, five, func() bool { return is(valcm18.deepP(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "DeepP", func() bool { return is(valcm18.DeepP(1)) }, five, func() bool { return is(valcm18.deepP(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "deepP", func() bool { return is(valcm18.deepP(1)) }, five, func() bool { return is(valcm18.DeepP(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "deepP", func() bool { return is(valcm18.deepP(1)) }, five, func() bool { return is(valcm18.DeepP(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "DeepFieldM", func() bool { return is(valcm18.DeepFieldM(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "DeepFieldM", func() bool { return is(valcm18.DeepFieldM(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Decoy", func() bool { return is(valcm18.Decoy(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Decoy", func() bool { return is(valcm18.Decoy(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "decoy", func() bool { return is(valcm18.decoy(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "decoy", func() bool { return is(valcm18.decoy(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Own1", func() bool { return is(valcm18.Own1(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Own1", func() bool { return is(valcm18.Own1(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Own2", func() bool { return is(valcm18.Own2(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Own2", func() bool { return is(valcm18.Own2(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Own9", func() bool { return is(valcm18.Own9(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Own9", func() bool { return is(valcm18.Own9(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Own17", func() bool { return is(valcm18.Own17(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Own17", func() bool { return is(valcm18.Own17(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "Own18", func() bool { return is(valcm18.Own18(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "Own18", func() bool { return is(valcm18.Own18(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "own1", func() bool { return is(valcm18.own1(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "own1", func() bool { return is(valcm18.own1(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "own2", func() bool { return is(valcm18.own2(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "own2", func() bool { return is(valcm18.own2(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "own9", func() bool { return is(valcm18.own9(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "own9", func() bool { return is(valcm18.own9(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "own17", func() bool { return is(valcm18.own17(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "own17", func() bool { return is(valcm18.own17(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(&valcm18), "own18", func() bool { return is(valcm18.own18(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 mixed fields", val(valcm18), "own18", func() bool { return is(valcm18.own18(1)) }, five, func() bool { return is(valcm18.Deep(1)) }},
		{"chain of 18 fields", val(&valcm18), "Nope", nil, nil, nil},
		{"chain of 18 fields", val(&valcm18), "nope", nil, nil, nil},
		{"chain of 19 mixed fields", val(&valcm19), "Deep", func() bool { return is(valcm19.Deep(1)) }, five, func() bool { return is(valcm19.deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Deep", func() bool { return is(valcm19.Deep(1)) }, five, func() bool { return is(valcm19.deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "deep", func() bool { return is(valcm19.deep(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "deep", func() bool { return is(valcm19.deep(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "DeepP", func() bool { return is(valcm19.DeepP(1)) }, five, func() bool { return is(valcm19.deepP(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "DeepP", func() bool { return is(valcm19.DeepP(1)) }, five, func() bool { return is(valcm19.deepP(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "deepP", func() bool { return is(valcm19.deepP(1)) }, five, func() bool { return is(valcm19.DeepP(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "deepP", func() bool { return is(valcm19.deepP(1)) }, five, func() bool { return is(valcm19.DeepP(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "DeepFieldM", func() bool { return is(valcm19.DeepFieldM(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "DeepFieldM", func() bool { return is(valcm19.DeepFieldM(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Decoy", func() bool { return is(valcm19.Decoy(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Decoy", func() bool { return is(valcm19.Decoy(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "decoy", func() bool { return is(valcm19.decoy(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "decoy", func() bool { return is(valcm19.decoy(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Own1", func() bool { return is(valcm19.Own1(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Own1", func() bool { return is(valcm19.Own1(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Own2", func() bool { return is(valcm19.Own2(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Own2", func() bool { return is(valcm19.Own2(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Own9", func() bool { return is(valcm19.Own9(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Own9", func() bool { return is(valcm19.Own9(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Own18", func() bool { return is(valcm19.Own18(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Own18", func() bool { return is(valcm19.Own18(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "Own19", func() bool { return is(valcm19.Own19(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "Own19", func() bool { return is(valcm19.Own19(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "own1", func() bool { return is(valcm19.own1(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "own1", func() bool { return is(valcm19.own1(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "own2", func() bool { return is(valcm19.own2(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "own2", func() bool { return is(valcm19.own2(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "own9", func() bool { return is(valcm19.own9(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "own9", func() bool { return is(valcm19.own9(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "own18", func() bool { return is(valcm19.own18(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "own18", func() bool { return is(valcm19.own18(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(&valcm19), "own19", func() bool { return is(valcm19.own19(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 mixed fields", val(valcm19), "own19", func() bool { return is(valcm19.own19(1)) }, five, func() bool { return is(valcm19.Deep(1)) }},
		{"chain of 19 fields", val(&valcm19), "Nope", nil, nil, nil},
		{"chain of 19 fields", val(&valcm19), "nope", nil, nil, nil},
		{"chain of 20 mixed fields", val(&valcm20), "Deep", func() bool { return is(valcm20.Deep(1)) }, five, func() bool { return is(valcm20.deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Deep", func() bool { return is(valcm20.Deep(1)) }, five, func() bool { return is(valcm20.deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "deep", func() bool { return is(valcm20.deep(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "deep", func() bool { return is(valcm20.deep(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "DeepP", func() bool { return is(valcm20.DeepP(1)) }, five, func() bool { return is(valcm20.deepP(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "DeepP", func() bool { return is(valcm20.DeepP(1)) }, five, func() bool { return is(valcm20.deepP(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "deepP", func() bool { return is(valcm20.deepP(1)) }, five, func() bool { return is(valcm20.DeepP(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "deepP", func() bool { return is(valcm20.deepP(1)) }, five, func() bool { return is(valcm20.DeepP(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "DeepFieldM", func() bool { return is(valcm20.DeepFieldM(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "DeepFieldM", func() bool { return is(valcm20.DeepFieldM(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Decoy", func() bool { return is(valcm20.Decoy(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Decoy", func() bool { return is(valcm20.Decoy(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "decoy", func() bool { return is(valcm20.decoy(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "decoy", func() bool { return is(valcm20.decoy(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Own1", func() bool { return is(valcm20.Own1(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Own1", func() bool { return is(valcm20.Own1(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Own2", func() bool { return is(valcm20.Own2(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Own2", func() bool { return is(valcm20.Own2(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Own10", func() bool { return is(valcm20.Own10(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Own10", func() bool { return is(valcm20.Own10(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Own19", func() bool { return is(valcm20.Own19(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Own19", func() bool { return is(valcm20.Own19(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "Own20", func() bool { return is(valcm20.Own20(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "Own20", func() bool { return is(valcm20.Own20(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "own1", func() bool { return is(valcm20.own1(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "own1", func() bool { return is(valcm20.own1(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "own2", func() bool { return is(valcm20.own2(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "own2", func() bool { return is(valcm20.own2(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "own10", func() bool { return is(valcm20.own10(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "own10", func() bool { return is(valcm20.own10(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "own19", func() bool { return is(valcm20.own19(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "own19", func() bool { return is(valcm20.own19(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(&valcm20), "own20", func() bool { return is(valcm20.own20(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 mixed fields", val(valcm20), "own20", func() bool { return is(valcm20.own20(1)) }, five, func() bool { return is(valcm20.Deep(1)) }},
		{"chain of 20 fields", val(&valcm20), "Nope", nil, nil, nil},
		{"chain of 20 fields", val(&valcm20), "nope", nil, nil, nil},
		{"chain of 21 mixed fields", val(&valcm21), "Deep", func() bool { return is(valcm21.Deep(1)) }, five, func() bool { return is(valcm21.deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Deep", func() bool { return is(valcm21.Deep(1)) }, five, func() bool { return is(valcm21.deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "deep", func() bool { return is(valcm21.deep(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "deep", func() bool { return is(valcm21.deep(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "DeepP", func() bool { return is(valcm21.DeepP(1)) }, five, func() bool { return is(valcm21.deepP(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "DeepP", func() bool { return is(valcm21.DeepP(1)) }, five, func() bool { return is(valcm21.deepP(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "deepP", func() bool { return is(valcm21.deepP(1)) }, five, func() bool { return is(valcm21.DeepP(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "deepP", func() bool { return is(valcm21.deepP(1)) }, five, func() bool { return is(valcm21.DeepP(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "DeepFieldM", func() bool { return is(valcm21.DeepFieldM(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "DeepFieldM", func() bool { return is(valcm21.DeepFieldM(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Decoy", func() bool { return is(valcm21.Decoy(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Decoy", func() bool { return is(valcm21.Decoy(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "decoy", func() bool { return is(valcm21.decoy(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "decoy", func() bool { return is(valcm21.decoy(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Own1", func() bool { return is(valcm21.Own1(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Own1", func() bool { return is(valcm21.Own1(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Own2", func() bool { return is(valcm21.Own2(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Own2", func() bool { return is(valcm21.Own2(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Own10", func() bool { return is(valcm21.Own10(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Own10", func() bool { return is(valcm21.Own10(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Own20", func() bool { return is(valcm21.Own20(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Own20", func() bool { return is(valcm21.Own20(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "Own21", func() bool { return is(valcm21.Own21(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "Own21", func() bool { return is(valcm21.Own21(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "own1", func() bool { return is(valcm21.own1(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "own1", func() bool { return is(valcm21.own1(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "own2", func() bool { return is(valcm21.own2(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "own2", func() bool { return is(valcm21.own2(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "own10", func() bool { return is(valcm21.own10(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "own10", func() bool { return is(valcm21.own10(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "own20", func() bool { return is(valcm21.own20(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "own20", func() bool { return is(valcm21.own20(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(&valcm21), "own21", func() bool { return is(valcm21.own21(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 mixed fields", val(valcm21), "own21", func() bool { return is(valcm21.own21(1)) }, five, func() bool { return is(valcm21.Deep(1)) }},
		{"chain of 21 fields", val(&valcm21), "Nope", nil, nil, nil},
		{"chain of 21 fields", val(&valcm21), "nope", nil, nil, nil},
		{"chain of 22 mixed fields", val(&valcm22), "Deep", func() bool { return is(valcm22.Deep(1)) }, five, func() bool { return is(valcm22.deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Deep", func() bool { return is(valcm22.Deep(1)) }, five, func() bool { return is(valcm22.deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "deep", func() bool { return is(valcm22.deep(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "deep", func() bool { return is(valcm22.deep(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "DeepP", func() bool { return is(valcm22.DeepP(1)) }, five, func() bool { return is(valcm22.deepP(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "DeepP", func() bool { return is(valcm22.DeepP(1)) }, five, func() bool { return is(valcm22.deepP(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "deepP", func() bool { return is(valcm22.deepP(1)) }, five, func() bool { return is(valcm22.DeepP(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "deepP", func() bool { return is(valcm22.deepP(1)) }, five, func() bool { return is(valcm22.DeepP(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "DeepFieldM", func() bool { return is(valcm22.DeepFieldM(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "DeepFieldM", func() bool { return is(valcm22.DeepFieldM(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Decoy", func() bool { return is(valcm22.Decoy(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Decoy", func() bool { return is(valcm22.Decoy(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "decoy", func() bool { return is(valcm22.decoy(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "decoy", func() bool { return is(valcm22.decoy(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Own1", func() bool { return is(valcm22.Own1(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Own1", func() bool { return is(valcm22.Own1(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Own2", func() bool { return is(valcm22.Own2(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Own2", func() bool { return is(valcm22.Own2(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Own11", func() bool { return is(valcm22.Own11(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Own11", func() bool { return is(valcm22.Own11(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Own21", func() bool { return is(valcm22.Own21(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Own21", func() bool { return is(valcm22.Own21(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "Own22", func() bool { return is(valcm22.Own22(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "Own22", func() bool { return is(valcm22.Own22(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "own1", func() bool { return is(valcm22.own1(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "own1", func() bool { return is(valcm22.own1(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "own2", func() bool { return is(valcm22.own2(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "own2", func() bool { return is(valcm22.own2(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "own11", func() bool { return is(valcm22.own11(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "own11", func() bool { return is(valcm22.own11(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "own21", func() bool { return is(valcm22.own21(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "own21", func() bool { return is(valcm22.own21(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(&valcm22), "own22", func() bool { return is(valcm22.own22(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 mixed fields", val(valcm22), "own22", func() bool { return is(valcm22.own22(1)) }, five, func() bool { return is(valcm22.Deep(1)) }},
		{"chain of 22 fields", val(&valcm22), "Nope", nil, nil, nil},
		{"chain of 22 fields", val(&valcm22), "nope", nil, nil, nil},
		{"chain of 23 mixed fields", val(&valcm23), "Deep", func() bool { return is(valcm23.Deep(1)) }, five, func() bool { return is(valcm23.deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Deep", func() bool { return is(valcm23.Deep(1)) }, five, func() bool { return is(valcm23.deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "deep", func() bool { return is(valcm23.deep(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "deep", func() bool { return is(valcm23.deep(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "DeepP", func() bool { return is(valcm23.DeepP(1)) }, five, func() bool { return is(valcm23.deepP(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "DeepP", func() bool { return is(valcm23.DeepP(1)) }, five, func() bool { return is(valcm23.deepP(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "deepP", func() bool { return is(valcm23.deepP(1)) }, five, func() bool { return is(valcm23.DeepP(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "deepP", func() bool { return is(valcm23.deepP(1)) }, five, func() bool { return is(valcm23.DeepP(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "DeepFieldM", func() bool { return is(valcm23.DeepFieldM(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "DeepFieldM", func() bool { return is(valcm23.DeepFieldM(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Decoy", func() bool { return is(valcm23.Decoy(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Decoy", func() bool { return is(valcm23.Decoy(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "decoy", func() bool { return is(valcm23.decoy(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "decoy", func() bool { return is(valcm23.decoy(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Own1", func() bool { return is(valcm23.Own1(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Own1", func() bool { return is(valcm23.Own1(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Own2", func() bool { return is(valcm23.Own2(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Own2", func() bool { return is(valcm23.Own2(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Own11", func() bool { return is(valcm23.Own11(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Own11", func() bool { return is(valcm23.Own11(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Own22", func() bool { return is(valcm23.Own22(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Own22", func() bool { return is(valcm23.Own22(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "Own23", func() bool { return is(valcm23.Own23(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "Own23", func() bool { return is(valcm23.Own23(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "own1", func() bool { return is(valcm23.own1(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "own1", func() bool { return is(valcm23.own1(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "own2", func() bool { return is(valcm23.own2(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "own2", func() bool { return is(valcm23.own2(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "own11", func() bool { return is(valcm23.own11(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "own11", func() bool { return is(valcm23.own11(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "own22", func() bool { return is(valcm23.own22(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "own22", func() bool { return is(valcm23.own22(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(&valcm23), "own23", func() bool { return is(valcm23.own23(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 mixed fields", val(valcm23), "own23", func() bool { return is(valcm23.own23(1)) }, five, func() bool { return is(valcm23.Deep(1)) }},
		{"chain of 23 fields", val(&valcm23), "Nope", nil, nil, nil},
		{"chain of 23 fields", val(&valcm23), "nope", nil, nil, nil},
		{"chain of 24 mixed fields", val(&valcm24), "Deep", func() bool { return is(valcm24.Deep(1)) }, five, func() bool { return is(valcm24.deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Deep", func() bool { return is(valcm24.Deep(1)) }, five, func() bool { return is(valcm24.deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "deep", func() bool { return is(valcm24.deep(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "deep", func() bool { return is(valcm24.deep(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "DeepP", func() bool { return is(valcm24.DeepP(1)) }, five, func() bool { return is(valcm24.deepP(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "DeepP", func() bool { return is(valcm24.DeepP(1)) }, five, func() bool { return is(valcm24.deepP(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "deepP", func() bool { return is(valcm24.deepP(1)) }, five, func() bool { return is(valcm24.DeepP(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "deepP", func() bool { return is(valcm24.deepP(1)) }, five, func() bool { return is(valcm24.DeepP(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "DeepFieldM", func() bool { return is(valcm24.DeepFieldM(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "DeepFieldM", func() bool { return is(valcm24.DeepFieldM(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Decoy", func() bool { return is(valcm24.Decoy(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Decoy", func() bool { return is(valcm24.Decoy(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "decoy", func() bool { return is(valcm24.decoy(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "decoy", func() bool { return is(valcm24.decoy(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Own1", func() bool { return is(valcm24.Own1(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Own1", func() bool { return is(valcm24.Own1(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Own2", func() bool { return is(valcm24.Own2(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Own2", func() bool { return is(valcm24.Own2(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Own12", func() bool { return is(valcm24.Own12(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Own12", func() bool { return is(valcm24.Own12(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Own23", func() bool { return is(valcm24.Own23(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Own23", func() bool { return is(valcm24.Own23(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "Own24", func() bool { return is(valcm24.Own24(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "Own24", func() bool { return is(valcm24.Own24(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "own1", func() bool { return is(valcm24.own1(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "own1", func() bool { return is(valcm24.own1(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "own2", func() bool { return is(valcm24.own2(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "own2", func() bool { return is(valcm24.own2(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "own12", func() bool { return is(valcm24.own12(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "own12", func() bool { return is(valcm24.own12(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "own23", func() bool { return is(valcm24.own23(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "own23", func() bool { return is(valcm24.own23(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(&valcm24), "own24", func() bool { return is(valcm24.own24(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 mixed fields", val(valcm24), "own24", func() bool { return is(valcm24.own24(1)) }, five, func() bool { return is(valcm24.Deep(1)) }},
		{"chain of 24 fields", val(&valcm24), "Nope", nil, nil, nil},
		{"chain of 24 fields", val(&valcm24), "nope", nil, nil, nil},
		{"24 embedded fields", val(valWide), "Wide0", func() bool { return is(valWide.Wide0(1)) }, five, func() bool { return is(valWide.wide0_(1)) || is(valWide.Wide1(1)) }},
		{"24 embedded fields", val(&valWide), "Wide0", func() bool { return is(valWide.Wide0(1)) }, five, func() bool { return is(valWide.wide0_(1)) || is(valWide.Wide1(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide0", func() bool { return is(valWide.Wide0(1)) }, five, func() bool { return is(valWide.wide0_(1)) || is(valWide.Wide1(1)) }},
		{"24 embedded fields", val(valWide), "wide0_", func() bool { return is(valWide.wide0_(1)) }, five, func() bool { return is(valWide.Wide0(1)) || is(valWide.wide1_(1)) }},
		{"24 embedded fields", val(&valWide), "wide0_", func() bool { return is(valWide.wide0_(1)) }, five, func() bool { return is(valWide.Wide0(1)) || is(valWide.wide1_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide0_", func() bool { return is(valWide.wide0_(1)) }, five, func() bool { return is(valWide.Wide0(1)) || is(valWide.wide1_(1)) }},
		{"24 embedded fields", val(valWide), "Wide1", func() bool { return is(valWide.Wide1(1)) }, five, func() bool { return is(valWide.wide1_(1)) || is(valWide.Wide2(1)) }},
		{"24 embedded fields", val(&valWide), "Wide1", func() bool { return is(valWide.Wide1(1)) }, five, func() bool { return is(valWide.wide1_(1)) || is(valWide.Wide2(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide1", func() bool { return is(valWide.Wide1(1)) }, five, func() bool { return is(valWide.wide1_(1)) || is(valWide.Wide2(1)) }},
		{"24 embedded fields", val(valWide), "wide1_", func() bool { return is(valWide.wide1_(1)) }, five, func() bool { return is(valWide.Wide1(1)) || is(valWide.wide2_(1)) }},
		{"24 embedded fields", val(&valWide), "wide1_", func() bool { return is(valWide.wide1_(1)) }, five, func() bool { return is(valWide.Wide1(1)) || is(valWide.wide2_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide1_", func() bool { return is(valWide.wide1_(1)) }, five, func() bool { return is(valWide.Wide1(1)) || is(valWide.wide2_(1)) }},
		{"24 embedded fields", val(valWide), "Wide2", func() bool { return is(valWide.Wide2(1)) }, five, func() bool { return is(valWide.wide2_(1)) || is(valWide.Wide3(1)) }},
		{"24 embedded fields", val(&valWide), "Wide2", func() bool { return is(valWide.Wide2(1)) }, five, func() bool { return is(valWide.wide2_(1)) || is(valWide.Wide3(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide2", func() bool { return is(valWide.Wide2(1)) }, five, func() bool { return is(valWide.wide2_(1)) || is(valWide.Wide3(1)) }},
		{"24 embedded fields", val(valWide), "wide2_", func() bool { return is(valWide.wide2_(1)) }, five, func() bool { return is(valWide.Wide2(1)) || is(valWide.wide3_(1)) }},
		{"24 embedded fields", val(&valWide), "wide2_", func() bool { return is(valWide.wide2_(1)) }, five, func() bool { return is(valWide.Wide2(1)) || is(valWide.wide3_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide2_", func() bool { return is(valWide.wide2_(1)) }, five, func() bool { return is(valWide.Wide2(1)) || is(valWide.wide3_(1)) }},
		{"24 embedded fields", val(valWide), "Wide3", func() bool { return is(valWide.Wide3(1)) }, five, func() bool { return is(valWide.wide3_(1)) || is(valWide.Wide4(1)) }},
		{"24 embedded fields", val(&valWide), "Wide3", func() bool { return is(valWide.Wide3(1)) }, five, func() bool { return is(valWide.wide3_(1)) || is(valWide.Wide4(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide3", func() bool { return is(valWide.Wide3(1)) }, five, func() bool { return is(valWide.wide3_(1)) || is(valWide.Wide4(1)) }},
		{"24 embedded fields", val(valWide), "wide3_", func() bool { return is(valWide.wide3_(1)) }, five, func() bool { return is(valWide.Wide3(1)) || is(valWide.wide4_(1)) }},
		{"24 embedded fields", val(&valWide), "wide3_", func() bool { return is(valWide.wide3_(1)) }, five, func() bool { return is(valWide.Wide3(1)) || is(valWide.wide4_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide3_", func() bool { return is(valWide.wide3_(1)) }, five, func() bool { return is(valWide.Wide3(1)) || is(valWide.wide4_(1)) }},
		{"24 embedded fields", val(valWide), "Wide4", func() bool { return is(valWide.Wide4(1)) }, five, func() bool { return is(valWide.wide4_(1)) || is(valWide.Wide5(1)) }},
		{"24 embedded fields", val(&valWide), "Wide4", func() bool { return is(valWide.Wide4(1)) }, five, func() bool { return is(valWide.wide4_(1)) || is(valWide.Wide5(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide4", func() bool { return is(valWide.Wide4(1)) }, five, func() bool { return is(valWide.wide4_(1)) || is(valWide.Wide5(1)) }},
		{"24 embedded fields", val(valWide), "wide4_", func() bool { return is(valWide.wide4_(1)) }, five, func() bool { return is(valWide.Wide4(1)) || is(valWide.wide5_(1)) }},
		{"24 embedded fields", val(&valWide), "wide4_", func() bool { return is(valWide.wide4_(1)) }, five, func() bool { return is(valWide.Wide4(1)) || is(valWide.wide5_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide4_", func() bool { return is(valWide.wide4_(1)) }, five, func() bool { return is(valWide.Wide4(1)) || is(valWide.wide5_(1)) }},
		{"24 embedded fields", val(valWide), "Wide5", func() bool { return is(valWide.Wide5(1)) }, five, func() bool { return is(valWide.wide5_(1)) || is(valWide.Wide6(1)) }},
		{"24 embedded fields", val(&valWide), "Wide5", func() bool { return is(valWide.Wide5(1)) }, five, func() bool { return is(valWide.wide5_(1)) || is(valWide.Wide6(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide5", func() bool { return is(valWide.Wide5(1)) }, five, func() bool { return is(valWide.wide5_(1)) || is(valWide.Wide6(1)) }},
		{"24 embedded fields", val(valWide), "wide5_", func() bool { return is(valWide.wide5_(1)) }, five, func() bool { return is(valWide.Wide5(1)) || is(valWide.wide6_(1)) }},
		{"24 embedded fields", val(&valWide), "wide5_", func() bool { return is(valWide.wide5_(1)) }, five, func() bool { return is(valWide.Wide5(1)) || is(valWide.wide6_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide5_", func() bool { return is(valWide.wide5_(1)) }, five, func() bool { return is(valWide.Wide5(1)) || is(valWide.wide6_(1)) }},
		{"24 embedded fields", val(valWide), "Wide6", func() bool { return is(valWide.Wide6(1)) }, five, func() bool { return is(valWide.wide6_(1)) || is(valWide.Wide7(1)) }},
		{"24 embedded fields", val(&valWide), "Wide6", func() bool { return is(valWide.Wide6(1)) }, five, func() bool { return is(valWide.wide6_(1)) || is(valWide.Wide7(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide6", func() bool { return is(valWide.Wide6(1)) }, five, func() bool { return is(valWide.wide6_(1)) || is(valWide.Wide7(1)) }},
		{"24 embedded fields", val(valWide), "wide6_", func() bool { return is(valWide.wide6_(1)) }, five, func() bool { return is(valWide.Wide6(1)) || is(valWide.wide7_(1)) }},
		{"24 embedded fields", val(&valWide), "wide6_", func() bool { return is(valWide.wide6_(1)) }, five, func() bool { return is(valWide.Wide6(1)) || is(valWide.wide7_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide6_", func() bool { return is(valWide.wide6_(1)) }, five, func() bool { return is(valWide.Wide6(1)) || is(valWide.wide7_(1)) }},
		{"24 embedded fields", val(valWide), "Wide7", func() bool { return is(valWide.Wide7(1)) }, five, func() bool { return is(valWide.wide7_(1)) || is(valWide.Wide8(1)) }},
		{"24 embedded fields", val(&valWide), "Wide7", func() bool { return is(valWide.Wide7(1)) }, five, func() bool { return is(valWide.wide7_(1)) || is(valWide.Wide8(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide7", func() bool { return is(valWide.Wide7(1)) }, five, func() bool { return is(valWide.wide7_(1)) || is(valWide.Wide8(1)) }},
		{"24 embedded fields", val(valWide), "wide7_", func() bool { return is(valWide.wide7_(1)) }, five, func() bool { return is(valWide.Wide7(1)) || is(valWide.wide8_(1)) }},
		{"24 embedded fields", val(&valWide), "wide7_", func() bool { return is(valWide.wide7_(1)) }, five, func() bool { return is(valWide.Wide7(1)) || is(valWide.wide8_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide7_", func() bool { return is(valWide.wide7_(1)) }, five, func() bool { return is(valWide.Wide7(1)) || is(valWide.wide8_(1)) }},
		{"24 embedded fields", val(valWide), "Wide8", func() bool { return is(valWide.Wide8(1)) }, five, func() bool { return is(valWide.wide8_(1)) || is(valWide.Wide9(1)) }},
		{"24 embedded fields", val(&valWide), "Wide8", func() bool { return is(valWide.Wide8(1)) }, five, func() bool { return is(valWide.wide8_(1)) || is(valWide.Wide9(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide8", func() bool { return is(valWide.Wide8(1)) }, five, func() bool { return is(valWide.wide8_(1)) || is(valWide.Wide9(1)) }},
		{"24 embedded fields", val(valWide), "wide8_", func() bool { return is(valWide.wide8_(1)) }, five, func() bool { return is(valWide.Wide8(1)) || is(valWide.wide9_(1)) }},
		{"24 embedded fields", val(&valWide), "wide8_", func() bool { return is(valWide.wide8_(1)) }, five, func() bool { return is(valWide.Wide8(1)) || is(valWide.wide9_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide8_", func() bool { return is(valWide.wide8_(1)) }, five, func() bool { return is(valWide.Wide8(1)) || is(valWide.wide9_(1)) }},
		{"24 embedded fields", val(valWide), "Wide9", func() bool { return is(valWide.Wide9(1)) }, five, func() bool { return is(valWide.wide9_(1)) || is(valWide.Wide10(1)) }},
		{"24 embedded fields", val(&valWide), "Wide9", func() bool { return is(valWide.Wide9(1)) }, five, func() bool { return is(valWide.wide9_(1)) || is(valWide.Wide10(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide9", func() bool { return is(valWide.Wide9(1)) }, five, func() bool { return is(valWide.wide9_(1)) || is(valWide.Wide10(1)) }},
		{"24 embedded fields", val(valWide), "wide9_", func() bool { return is(valWide.wide9_(1)) }, five, func() bool { return is(valWide.Wide9(1)) || is(valWide.wide10_(1)) }},
		{"24 embedded fields", val(&valWide), "wide9_", func() bool { return is(valWide.wide9_(1)) }, five, func() bool { return is(valWide.Wide9(1)) || is(valWide.wide10_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide9_", func() bool { return is(valWide.wide9_(1)) }, five, func() bool { return is(valWide.Wide9(1)) || is(valWide.wide10_(1)) }},
		{"24 embedded fields", val(valWide), "Wide10", func() bool { return is(valWide.Wide10(1)) }, five, func() bool { return is(valWide.wide10_(1)) || is(valWide.Wide11(1)) }},
		{"24 embedded fields", val(&valWide), "Wide10", func() bool { return is(valWide.Wide10(1)) }, five, func() bool { return is(valWide.wide10_(1)) || is(valWide.Wide11(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide10", func() bool { return is(valWide.Wide10(1)) }, five, func() bool { return is(valWide.wide10_(1)) || is(valWide.Wide11(1)) }},
		{"24 embedded fields", val(valWide), "wide10_", func() bool { return is(valWide.wide10_(1)) }, five, func() bool { return is(valWide.Wide10(1)) || is(valWide.wide11_(1)) }},
		{"24 embedded fields", val(&valWide), "wide10_", func() bool { return is(valWide.wide10_(1)) }, five, func() bool { return is(valWide.Wide10(1)) || is(valWide.wide11_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide10_", func() bool { return is(valWide.wide10_(1)) }, five, func() bool { return is(valWide.Wide10(1)) || is(valWide.wide11_(1)) }},
		{"24 embedded fields", val(valWide), "Wide11", func() bool { return is(valWide.Wide11(1)) }, five, func() bool { return is(valWide.wide11_(1)) || is(valWide.Wide12(1)) }},
		{"24 embedded fields", val(&valWide), "Wide11", func() bool { return is(valWide.Wide11(1)) }, five, func() bool { return is(valWide.wide11_(1)) || is(valWide.Wide12(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide11", func() bool { return is(valWide.Wide11(1)) }, five, func() bool { return is(valWide.wide11_(1)) || is(valWide.Wide12(1)) }},
		{"24 embedded fields", val(valWide), "wide11_", func() bool { return is(valWide.wide11_(1)) }, five, func() bool { return is(valWide.Wide11(1)) || is(valWide.wide12_(1)) }},
		{"24 embedded fields", val(&valWide), "wide11_", func() bool { return is(valWide.wide11_(1)) }, five, func() bool { return is(valWide.Wide11(1)) || is(valWide.wide12_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide11_", func() bool { return is(valWide.wide11_(1)) }, five, func() bool { return is(valWide.Wide11(1)) || is(valWide.wide12_(1)) }},
		{"24 embedded fields", val(valWide), "Wide12", func() bool { return is(valWide.Wide12(1)) }, five, func() bool { return is(valWide.wide12_(1)) || is(valWide.Wide13(1)) }},
		{"24 embedded fields", val(&valWide), "Wide12", func() bool { return is(valWide.Wide12(1)) }, five, func() bool { return is(valWide.wide12_(1)) || is(valWide.Wide13(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide12", func() bool { return is(valWide.Wide12(1)) }, five, func() bool { return is(valWide.wide12_(1)) || is(valWide.Wide13(1)) }},
		{"24 embedded fields", val(valWide), "wide12_", func() bool { return is(valWide.wide12_(1)) }, five, func() bool { return is(valWide.Wide12(1)) || is(valWide.wide13_(1)) }},
		{"24 embedded fields", val(&valWide), "wide12_", func() bool { return is(valWide.wide12_(1)) }, five, func() bool { return is(valWide.Wide12(1)) || is(valWide.wide13_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide12_", func() bool { return is(valWide.wide12_(1)) }, five, func() bool { return is(valWide.Wide12(1)) || is(valWide.wide13_(1)) }},
		{"24 embedded fields", val(valWide), "Wide13", func() bool { return is(valWide.Wide13(1)) }, five, func() bool { return is(valWide.wide13_(1)) || is(valWide.Wide14(1)) }},
		{"24 embedded fields", val(&valWide), "Wide13", func() bool { return is(valWide.Wide13(1)) }, five, func() bool { return is(valWide.wide13_(1)) || is(valWide.Wide14(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide13", func() bool { return is(valWide.Wide13(1)) }, five, func() bool { return is(valWide.wide13_(1)) || is(valWide.Wide14(1)) }},
		{"24 embedded fields", val(valWide), "wide13_", func() bool { return is(valWide.wide13_(1)) }, five, func() bool { return is(valWide.Wide13(1)) || is(valWide.wide14_(1)) }},
		{"24 embedded fields", val(&valWide), "wide13_", func() bool { return is(valWide.wide13_(1)) }, five, func() bool { return is(valWide.Wide13(1)) || is(valWide.wide14_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide13_", func() bool { return is(valWide.wide13_(1)) }, five, func() bool { return is(valWide.Wide13(1)) || is(valWide.wide14_(1)) }},
		{"24 embedded fields", val(valWide), "Wide14", func() bool { return is(valWide.Wide14(1)) }, five, func() bool { return is(valWide.wide14_(1)) || is(valWide.Wide15(1)) }},
		{"24 embedded fields", val(&valWide), "Wide14", func() bool { return is(valWide.Wide14(1)) }, five, func() bool { return is(valWide.wide14_(1)) || is(valWide.Wide15(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide14", func() bool { return is(valWide.Wide14(1)) }, five, func() bool { return is(valWide.wide14_(1)) || is(valWide.Wide15(1)) }},
		{"24 embedded fields", val(valWide), "wide14_", func() bool { return is(valWide.wide14_(1)) }, five, func() bool { return is(valWide.Wide14(1)) || is(valWide.wide15_(1)) }},
		{"24 embedded fields", val(&valWide), "wide14_", func() bool { return is(valWide.wide14_(1)) }, five, func() bool { return is(valWide.Wide14(1)) || is(valWide.wide15_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide14_", func() bool { return is(valWide.wide14_(1)) }, five, func() bool { return is(valWide.Wide14(1)) || is(valWide.wide15_(1)) }},
		{"24 embedded fields", val(valWide), "Wide15", func() bool { return is(valWide.Wide15(1)) }, five, func() bool { return is(valWide.wide15_(1)) || is(valWide.Wide16(1)) }},
		{"24 embedded fields", val(&valWide), "Wide15", func() bool { return is(valWide.Wide15(1)) }, five, func() bool { return is(valWide.wide15_(1)) || is(valWide.Wide16(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide15", func() bool { return is(valWide.Wide15(1)) }, five, func() bool { return is(valWide.wide15_(1)) || is(valWide.Wide16(1)) }},
		{"24 embedded fields", val(valWide), "wide15_", func() bool { return is(valWide.wide15_(1)) }, five, func() bool { return is(valWide.Wide15(1)) || is(valWide.wide16_(1)) }},
		{"24 embedded fields", val(&valWide), "wide15_", func() bool { return is(valWide.wide15_(1)) }, five, func() bool { return is(valWide.Wide15(1)) || is(valWide.wide16_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide15_", func() bool { return is(valWide.wide15_(1)) }, five, func() bool { return is(valWide.Wide15(1)) || is(valWide.wide16_(1)) }},
		{"24 embedded fields", val(valWide), "Wide16", func() bool { return is(valWide.Wide16(1)) }, five, func() bool { return is(valWide.wide16_(1)) || is(valWide.Wide17(1)) }},
		{"24 embedded fields", val(&valWide), "Wide16", func() bool { return is(valWide.Wide16(1)) }, five, func() bool { return is(valWide.wide16_(1)) || is(valWide.Wide17(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide16", func() bool { return is(valWide.Wide16(1)) }, five, func() bool { return is(valWide.wide16_(1)) || is(valWide.Wide17(1)) }},
		{"24 embedded fields", val(valWide), "wide16_", func() bool { return is(valWide.wide16_(1)) }, five, func() bool { return is(valWide.Wide16(1)) || is(valWide.wide17_(1)) }},
		{"24 embedded fields", val(&valWide), "wide16_", func() bool { return is(valWide.wide16_(1)) }, five, func() bool { return is(valWide.Wide16(1)) || is(valWide.wide17_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide16_", func() bool { return is(valWide.wide16_(1)) }, five, func() bool { return is(valWide.Wide16(1)) || is(valWide.wide17_(1)) }},
		{"24 embedded fields", val(valWide), "Wide17", func() bool { return is(valWide.Wide17(1)) }, five, func() bool { return is(valWide.wide17_(1)) || is(valWide.Wide18(1)) }},
		{"24 embedded fields", val(&valWide), "Wide17", func() bool { return is(valWide.Wide17(1)) }, five, func() bool { return is(valWide.wide17_(1)) || is(valWide.Wide18(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide17", func() bool { return is(valWide.Wide17(1)) }, five, func() bool { return is(valWide.wide17_(1)) || is(valWide.Wide18(1)) }},
		{"24 embedded fields", val(valWide), "wide17_", func() bool { return is(valWide.wide17_(1)) }, five, func() bool { return is(valWide.Wide17(1)) || is(valWide.wide18_(1)) }},
		{"24 embedded fields", val(&valWide), "wide17_", func() bool { return is(valWide.wide17_(1)) }, five, func() bool { return is(valWide.Wide17(1)) || is(valWide.wide18_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide17_", func() bool { return is(valWide.wide17_(1)) }, five, func() bool { return is(valWide.Wide17(1)) || is(valWide.wide18_(1)) }},
		{"24 embedded fields", val(valWide), "Wide18", func() bool { return is(valWide.Wide18(1)) }, five, func() bool { return is(valWide.wide18_(1)) || is(valWide.Wide19(1)) }},
		{"24 embedded fields", val(&valWide), "Wide18", func() bool { return is(valWide.Wide18(1)) }, five, func() bool { return is(valWide.wide18_(1)) || is(valWide.Wide19(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide18", func() bool { return is(valWide.Wide18(1)) }, five, func() bool { return is(valWide.wide18_(1)) || is(valWide.Wide19(1)) }},
		{"24 embedded fields", val(valWide), "wide18_", func() bool { return is(valWide.wide18_(1)) }, five, func() bool { return is(valWide.Wide18(1)) || is(valWide.wide19_(1)) }},
		{"24 embedded fields", val(&valWide), "wide18_", func() bool { return is(valWide.wide18_(1)) }, five, func() bool { return is(valWide.Wide18(1)) || is(valWide.wide19_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide18_", func() bool { return is(valWide.wide18_(1)) }, five, func() bool { return is(valWide.Wide18(1)) || is(valWide.wide19_(1)) }},
		{"24 embedded fields", val(valWide), "Wide19", func() bool { return is(valWide.Wide19(1)) }, five, func() bool { return is(valWide.wide19_(1)) || is(valWide.Wide20(1)) }},
		{"24 embedded fields", val(&valWide), "Wide19", func() bool { return is(valWide.Wide19(1)) }, five, func() bool { return is(valWide.wide19_(1)) || is(valWide.Wide20(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide19", func() bool { return is(valWide.Wide19(1)) }, five, func() bool { return is(valWide.wide19_(1)) || is(valWide.Wide20(1)) }},
		{"24 embedded fields", val(valWide), "wide19_", func() bool { return is(valWide.wide19_(1)) }, five, func() bool { return is(valWide.Wide19(1)) || is(valWide.wide20_(1)) }},
		{"24 embedded fields", val(&valWide), "wide19_", func() bool { return is(valWide.wide19_(1)) }, five, func() bool { return is(valWide.Wide19(1)) || is(valWide.wide20_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide19_", func() bool { return is(valWide.wide19_(1)) }, five, func() bool { return is(valWide.Wide19(1)) || is(valWide.wide20_(1)) }},
		{"24 embedded fields", val(valWide), "Wide20", func() bool { return is(valWide.Wide20(1)) }, five, func() bool { return is(valWide.wide20_(1)) || is(valWide.Wide21(1)) }},
		{"24 embedded fields", val(&valWide), "Wide20", func() bool { return is(valWide.Wide20(1)) }, five, func() bool { return is(valWide.wide20_(1)) || is(valWide.Wide21(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide20", func() bool { return is(valWide.Wide20(1)) }, five, func() bool { return is(valWide.wide20_(1)) || is(valWide.Wide21(1)) }},
		{"24 embedded fields", val(valWide), "wide20_", func() bool { return is(valWide.wide20_(1)) }, five, func() bool { return is(valWide.Wide20(1)) || is(valWide.wide21_(1)) }},
		{"24 embedded fields", val(&valWide), "wide20_", func() bool { return is(valWide.wide20_(1)) }, five, func() bool { return is(valWide.Wide20(1)) || is(valWide.wide21_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide20_", func() bool { return is(valWide.wide20_(1)) }, five, func() bool { return is(valWide.Wide20(1)) || is(valWide.wide21_(1)) }},
		{"24 embedded fields", val(valWide), "Wide21", func() bool { return is(valWide.Wide21(1)) }, five, func() bool { return is(valWide.wide21_(1)) || is(valWide.Wide22(1)) }},
		{"24 embedded fields", val(&valWide), "Wide21", func() bool { return is(valWide.Wide21(1)) }, five, func() bool { return is(valWide.wide21_(1)) || is(valWide.Wide22(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide21", func() bool { return is(valWide.Wide21(1)) }, five, func() bool { return is(valWide.wide21_(1)) || is(valWide.Wide22(1)) }},
		{"24 embedded fields", val(valWide), "wide21_", func() bool { return is(valWide.wide21_(1)) }, five, func() bool { return is(valWide.Wide21(1)) || is(valWide.wide22_(1)) }},
		{"24 embedded fields", val(&valWide), "wide21_", func() bool { return is(valWide.wide21_(1)) }, five, func() bool { return is(valWide.Wide21(1)) || is(valWide.wide22_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide21_", func() bool { return is(valWide.wide21_(1)) }, five, func() bool { return is(valWide.Wide21(1)) || is(valWide.wide22_(1)) }},
		{"24 embedded fields", val(valWide), "Wide22", func() bool { return is(valWide.Wide22(1)) }, five, func() bool { return is(valWide.wide22_(1)) || is(valWide.Wide23(1)) }},
		{"24 embedded fields", val(&valWide), "Wide22", func() bool { return is(valWide.Wide22(1)) }, five, func() bool { return is(valWide.wide22_(1)) || is(valWide.Wide23(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide22", func() bool { return is(valWide.Wide22(1)) }, five, func() bool { return is(valWide.wide22_(1)) || is(valWide.Wide23(1)) }},
		{"24 embedded fields", val(valWide), "wide22_", func() bool { return is(valWide.wide22_(1)) }, five, func() bool { return is(valWide.Wide22(1)) || is(valWide.wide23_(1)) }},
		{"24 embedded fields", val(&valWide), "wide22_", func() bool { return is(valWide.wide22_(1)) }, five, func() bool { return is(valWide.Wide22(1)) || is(valWide.wide23_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide22_", func() bool { return is(valWide.wide22_(1)) }, five, func() bool { return is(valWide.Wide22(1)) || is(valWide.wide23_(1)) }},
		{"24 embedded fields", val(valWide), "Wide23", func() bool { return is(valWide.Wide23(1)) }, five, func() bool { return is(valWide.wide23_(1)) || is(valWide.Wide0(1)) }},
		{"24 embedded fields", val(&valWide), "Wide23", func() bool { return is(valWide.Wide23(1)) }, five, func() bool { return is(valWide.wide23_(1)) || is(valWide.Wide0(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "Wide23", func() bool { return is(valWide.Wide23(1)) }, five, func() bool { return is(valWide.wide23_(1)) || is(valWide.Wide0(1)) }},
		{"24 embedded fields", val(valWide), "wide23_", func() bool { return is(valWide.wide23_(1)) }, five, func() bool { return is(valWide.Wide23(1)) || is(valWide.wide0_(1)) }},
		{"24 embedded fields", val(&valWide), "wide23_", func() bool { return is(valWide.wide23_(1)) }, five, func() bool { return is(valWide.Wide23(1)) || is(valWide.wide0_(1)) }},
		{"24 embedded fields", val(valWide.wideAll), "wide23_", func() bool { return is(valWide.wide23_(1)) }, five, func() bool { return is(valWide.Wide23(1)) || is(valWide.wide0_(1)) }},
	}
}
