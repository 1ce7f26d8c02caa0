// Code generated by tools/gen_names.py. DO NOT EDIT.

package shaperun

import "fmt"

type nameV struct{ k int }

type nameP struct{ k int }

type nameI int

type nameE struct {
	k int
	nameV
}

type nameQ struct {
	k int
	*nameP
}

func (v nameV) a(x int) int { fmt.Sprint(x); return x + 1000 }

func (v nameV) B(x int) int { fmt.Sprint(x); return x + 1001 }

func (v nameV) aa(x int) int { fmt.Sprint(x); return x + 1002 }

func (v nameV) BB(x int) int { fmt.Sprint(x); return x + 1003 }

func (v nameV) aaa(x int) int { fmt.Sprint(x); return x + 1004 }

func (v nameV) BBB(x int) int { fmt.Sprint(x); return x + 1005 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1006 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1007 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1008 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1009 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1010 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1011 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1012 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1013 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1014 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1015 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1016 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1017 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1018 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1019 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1020 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1021 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1022 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1023 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1024 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1025 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1026 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1027 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1028 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1029 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1030 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1031 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1032 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1033 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1034 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1035 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1036 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1037 }

func (v nameV) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1038 }

func (v nameV) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1039 }

func (v nameV) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1040 }

func (v nameV) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1041 }

func (v nameV) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1042 }

func (v nameV) __(x int) int { fmt.Sprint(x); return x + 1043 }

func (v nameV) _a(x int) int { fmt.Sprint(x); return x + 1044 }

func (v nameV) _A(x int) int { fmt.Sprint(x); return x + 1045 }

func (v nameV) é(x int) int { fmt.Sprint(x); return x + 1046 }

func (v nameV) éa(x int) int { fmt.Sprint(x); return x + 1047 }

func (v nameV) ée(x int) int { fmt.Sprint(x); return x + 1048 }

func (v nameV) É(x int) int { fmt.Sprint(x); return x + 1049 }

func (v nameV) Éa(x int) int { fmt.Sprint(x); return x + 1050 }

func (v nameV) 世(x int) int { fmt.Sprint(x); return x + 1051 }

func (v nameV) 世界(x int) int { fmt.Sprint(x); return x + 1052 }

func (v nameV) aé(x int) int { fmt.Sprint(x); return x + 1053 }

func (v nameV) Aé(x int) int { fmt.Sprint(x); return x + 1054 }

func (v nameV) aÉ(x int) int { fmt.Sprint(x); return x + 1055 }

func (v nameV) x1(x int) int { fmt.Sprint(x); return x + 1056 }

func (v nameV) x10(x int) int { fmt.Sprint(x); return x + 1057 }

func (v nameV) x100(x int) int { fmt.Sprint(x); return x + 1058 }

func (v nameV) X1(x int) int { fmt.Sprint(x); return x + 1059 }

func (v nameV) X10(x int) int { fmt.Sprint(x); return x + 1060 }

func (v nameV) string(x int) int { fmt.Sprint(x); return x + 1061 }

func (v nameV) String(x int) int { fmt.Sprint(x); return x + 1062 }

func (v nameV) error(x int) int { fmt.Sprint(x); return x + 1063 }

func (v nameV) Error(x int) int { fmt.Sprint(x); return x + 1064 }

func (v nameV) len(x int) int { fmt.Sprint(x); return x + 1065 }

func (v nameV) init_(x int) int { fmt.Sprint(x); return x + 1066 }

func (v nameV) main(x int) int { fmt.Sprint(x); return x + 1067 }

func (v nameV) glob(x int) int { fmt.Sprint(x); return x + 1068 }

func (v nameV) func1(x int) int { fmt.Sprint(x); return x + 1069 }

func (v nameV) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1070 }

func (v nameV) éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1071 }

func (v nameV) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1072 }

func (v nameV) m0(x int) int { fmt.Sprint(x); return x + 1073 }

func (v nameV) m1(x int) int { fmt.Sprint(x); return x + 1074 }

func (v nameV) m2(x int) int { fmt.Sprint(x); return x + 1075 }

func (v nameV) m3(x int) int { fmt.Sprint(x); return x + 1076 }

func (v nameV) m4(x int) int { fmt.Sprint(x); return x + 1077 }

func (v nameV) m5(x int) int { fmt.Sprint(x); return x + 1078 }

func (v nameV) m6(x int) int { fmt.Sprint(x); return x + 1079 }

func (v nameV) m7(x int) int { fmt.Sprint(x); return x + 1080 }

func (v nameV) m8(x int) int { fmt.Sprint(x); return x + 1081 }

func (v nameV) m9(x int) int { fmt.Sprint(x); return x + 1082 }

func (v nameV) m10(x int) int { fmt.Sprint(x); return x + 1083 }

func (v nameV) m11(x int) int { fmt.Sprint(x); return x + 1084 }

func (v nameV) m12(x int) int { fmt.Sprint(x); return x + 1085 }

func (v nameV) m13(x int) int { fmt.Sprint(x); return x + 1086 }

func (v nameV) m14(x int) int { fmt.Sprint(x); return x + 1087 }

func (v nameV) m15(x int) int { fmt.Sprint(x); return x + 1088 }

func (v nameV) m16(x int) int { fmt.Sprint(x); return x + 1089 }

func (v nameV) m17(x int) int { fmt.Sprint(x); return x + 1090 }

func (v nameV) m18(x int) int { fmt.Sprint(x); return x + 1091 }

func (v nameV) m19(x int) int { fmt.Sprint(x); return x + 1092 }

func (v nameV) m20(x int) int { fmt.Sprint(x); return x + 1093 }

func (v nameV) m21(x int) int { fmt.Sprint(x); return x + 1094 }

func (v nameV) m22(x int) int { fmt.Sprint(x); return x + 1095 }

func (v nameV) m23(x int) int { fmt.Sprint(x); return x + 1096 }

func (v nameV) m24(x int) int { fmt.Sprint(x); return x + 1097 }

func (v nameV) m25(x int) int { fmt.Sprint(x); return x + 1098 }

func (v nameV) m26(x int) int { fmt.Sprint(x); return x + 1099 }

func (v nameV) m27(x int) int { fmt.Sprint(x); return x + 1100 }

func (v nameV) m28(x int) int { fmt.Sprint(x); return x + 1101 }

func (v nameV) m29(x int) int { fmt.Sprint(x); return x + 1102 }

func (v nameV) m30(x int) int { fmt.Sprint(x); return x + 1103 }

func (v nameV) m31(x int) int { fmt.Sprint(x); return x + 1104 }

func (v nameV) m32(x int) int { fmt.Sprint(x); return x + 1105 }

func (v nameV) m33(x int) int { fmt.Sprint(x); return x + 1106 }

func (v nameV) m34(x int) int { fmt.Sprint(x); return x + 1107 }

func (v nameV) m35(x int) int { fmt.Sprint(x); return x + 1108 }

func (v nameV) m36(x int) int { fmt.Sprint(x); return x + 1109 }

func (v nameV) m37(x int) int { fmt.Sprint(x); return x + 1110 }

func (v nameV) m38(x int) int { fmt.Sprint(x); return x + 1111 }

func (v nameV) m39(x int) int { fmt.Sprint(x); return x + 1112 }

func (v nameV) m40(x int) int { fmt.Sprint(x); return x + 1113 }

func (v nameV) m41(x int) int { fmt.Sprint(x); return x + 1114 }

func (v nameV) m42(x int) int { fmt.Sprint(x); return x + 1115 }

func (v nameV) m43(x int) int { fmt.Sprint(x); return x + 1116 }

func (v nameV) m44(x int) int { fmt.Sprint(x); return x + 1117 }

func (v nameV) m45(x int) int { fmt.Sprint(x); return x + 1118 }

func (v nameV) m46(x int) int { fmt.Sprint(x); return x + 1119 }

func (v nameV) m47(x int) int { fmt.Sprint(x); return x + 1120 }

func (v nameV) m48(x int) int { fmt.Sprint(x); return x + 1121 }

func (v nameV) m49(x int) int { fmt.Sprint(x); return x + 1122 }

func (v nameV) m50(x int) int { fmt.Sprint(x); return x + 1123 }

func (v nameV) m51(x int) int { fmt.Sprint(x); return x + 1124 }

func (v nameV) m52(x int) int { fmt.Sprint(x); return x + 1125 }

func (v nameV) m53(x int) int { fmt.Sprint(x); return x + 1126 }

func (v nameV) m54(x int) int { fmt.Sprint(x); return x + 1127 }

func (v nameV) m55(x int) int { fmt.Sprint(x); return x + 1128 }

func (v nameV) m56(x int) int { fmt.Sprint(x); return x + 1129 }

func (v nameV) m57(x int) int { fmt.Sprint(x); return x + 1130 }

func (v nameV) m58(x int) int { fmt.Sprint(x); return x + 1131 }

func (v nameV) m59(x int) int { fmt.Sprint(x); return x + 1132 }

func (v nameV) m60(x int) int { fmt.Sprint(x); return x + 1133 }

func (v nameV) m61(x int) int { fmt.Sprint(x); return x + 1134 }

func (v nameV) m62(x int) int { fmt.Sprint(x); return x + 1135 }

func (v nameV) m63(x int) int { fmt.Sprint(x); return x + 1136 }

func (v nameV) m64(x int) int { fmt.Sprint(x); return x + 1137 }

func (v nameV) m65(x int) int { fmt.Sprint(x); return x + 1138 }

func (v nameV) m66(x int) int { fmt.Sprint(x); return x + 1139 }

func (v nameV) m67(x int) int { fmt.Sprint(x); return x + 1140 }

func (v nameV) m68(x int) int { fmt.Sprint(x); return x + 1141 }

func (v nameV) m69(x int) int { fmt.Sprint(x); return x + 1142 }

func (v nameV) m70(x int) int { fmt.Sprint(x); return x + 1143 }

func (v nameV) m71(x int) int { fmt.Sprint(x); return x + 1144 }

func (v nameV) m72(x int) int { fmt.Sprint(x); return x + 1145 }

func (v nameV) m73(x int) int { fmt.Sprint(x); return x + 1146 }

func (v nameV) m74(x int) int { fmt.Sprint(x); return x + 1147 }

func (v nameV) m75(x int) int { fmt.Sprint(x); return x + 1148 }

func (v nameV) m76(x int) int { fmt.Sprint(x); return x + 1149 }

func (v nameV) m77(x int) int { fmt.Sprint(x); return x + 1150 }

func (v nameV) m78(x int) int { fmt.Sprint(x); return x + 1151 }

func (v nameV) m79(x int) int { fmt.Sprint(x); return x + 1152 }

func (v nameV) m80(x int) int { fmt.Sprint(x); return x + 1153 }

func (v nameV) m81(x int) int { fmt.Sprint(x); return x + 1154 }

func (v nameV) m82(x int) int { fmt.Sprint(x); return x + 1155 }

func (v nameV) m83(x int) int { fmt.Sprint(x); return x + 1156 }

func (v nameV) m84(x int) int { fmt.Sprint(x); return x + 1157 }

func (v nameV) m85(x int) int { fmt.Sprint(x); return x + 1158 }

func (v nameV) m86(x int) int { fmt.Sprint(x); return x + 1159 }

func (v nameV) m87(x int) int { fmt.Sprint(x); return x + 1160 }

func (v nameV) m88(x int) int { fmt.Sprint(x); return x + 1161 }

func (v nameV) m89(x int) int { fmt.Sprint(x); return x + 1162 }

func (v nameV) m90(x int) int { fmt.Sprint(x); return x + 1163 }

func (v nameV) m91(x int) int { fmt.Sprint(x); return x + 1164 }

func (v nameV) m92(x int) int { fmt.Sprint(x); return x + 1165 }

func (v nameV) m93(x int) int { fmt.Sprint(x); return x + 1166 }

func (v nameV) m94(x int) int { fmt.Sprint(x); return x + 1167 }

func (v nameV) m95(x int) int { fmt.Sprint(x); return x + 1168 }

func (v nameV) m96(x int) int { fmt.Sprint(x); return x + 1169 }

func (v nameV) m97(x int) int { fmt.Sprint(x); return x + 1170 }

func (v nameV) m98(x int) int { fmt.Sprint(x); return x + 1171 }

func (v nameV) m99(x int) int { fmt.Sprint(x); return x + 1172 }

func (v nameV) m100(x int) int { fmt.Sprint(x); return x + 1173 }

func (v nameV) m101(x int) int { fmt.Sprint(x); return x + 1174 }

func (v nameV) m102(x int) int { fmt.Sprint(x); return x + 1175 }

func (v nameV) m103(x int) int { fmt.Sprint(x); return x + 1176 }

func (v nameV) m104(x int) int { fmt.Sprint(x); return x + 1177 }

func (v nameV) m105(x int) int { fmt.Sprint(x); return x + 1178 }

func (v nameV) m106(x int) int { fmt.Sprint(x); return x + 1179 }

func (v nameV) m107(x int) int { fmt.Sprint(x); return x + 1180 }

func (v nameV) m108(x int) int { fmt.Sprint(x); return x + 1181 }

func (v nameV) m109(x int) int { fmt.Sprint(x); return x + 1182 }

func (v nameV) m110(x int) int { fmt.Sprint(x); return x + 1183 }

func (v nameV) m111(x int) int { fmt.Sprint(x); return x + 1184 }

func (v nameV) m112(x int) int { fmt.Sprint(x); return x + 1185 }

func (v nameV) m113(x int) int { fmt.Sprint(x); return x + 1186 }

func (v nameV) m114(x int) int { fmt.Sprint(x); return x + 1187 }

func (v nameV) m115(x int) int { fmt.Sprint(x); return x + 1188 }

func (v nameV) m116(x int) int { fmt.Sprint(x); return x + 1189 }

func (v nameV) m117(x int) int { fmt.Sprint(x); return x + 1190 }

func (v nameV) m118(x int) int { fmt.Sprint(x); return x + 1191 }

func (v nameV) m119(x int) int { fmt.Sprint(x); return x + 1192 }

func (v nameV) m120(x int) int { fmt.Sprint(x); return x + 1193 }

func (v nameV) m121(x int) int { fmt.Sprint(x); return x + 1194 }

func (v nameV) m122(x int) int { fmt.Sprint(x); return x + 1195 }

func (v nameV) m123(x int) int { fmt.Sprint(x); return x + 1196 }

func (v nameV) m124(x int) int { fmt.Sprint(x); return x + 1197 }

func (v nameV) m125(x int) int { fmt.Sprint(x); return x + 1198 }

func (v nameV) m126(x int) int { fmt.Sprint(x); return x + 1199 }

func (v nameV) m127(x int) int { fmt.Sprint(x); return x + 1200 }

func (v nameV) m128(x int) int { fmt.Sprint(x); return x + 1201 }

func (v nameV) m129(x int) int { fmt.Sprint(x); return x + 1202 }

func (v nameV) m130(x int) int { fmt.Sprint(x); return x + 1203 }

func (v nameV) m131(x int) int { fmt.Sprint(x); return x + 1204 }

func (v nameV) m132(x int) int { fmt.Sprint(x); return x + 1205 }

func (v nameV) m133(x int) int { fmt.Sprint(x); return x + 1206 }

func (v nameV) m134(x int) int { fmt.Sprint(x); return x + 1207 }

func (v nameV) m135(x int) int { fmt.Sprint(x); return x + 1208 }

func (v nameV) m136(x int) int { fmt.Sprint(x); return x + 1209 }

func (v nameV) m137(x int) int { fmt.Sprint(x); return x + 1210 }

func (v nameV) m138(x int) int { fmt.Sprint(x); return x + 1211 }

func (v nameV) m139(x int) int { fmt.Sprint(x); return x + 1212 }

func (v nameV) m140(x int) int { fmt.Sprint(x); return x + 1213 }

func (v nameV) m141(x int) int { fmt.Sprint(x); return x + 1214 }

func (v nameV) m142(x int) int { fmt.Sprint(x); return x + 1215 }

func (v nameV) m143(x int) int { fmt.Sprint(x); return x + 1216 }

func (v nameV) m144(x int) int { fmt.Sprint(x); return x + 1217 }

func (v nameV) m145(x int) int { fmt.Sprint(x); return x + 1218 }

func (v nameV) m146(x int) int { fmt.Sprint(x); return x + 1219 }

func (v nameV) m147(x int) int { fmt.Sprint(x); return x + 1220 }

func (v nameV) m148(x int) int { fmt.Sprint(x); return x + 1221 }

func (v nameV) m149(x int) int { fmt.Sprint(x); return x + 1222 }

func (v nameV) m150(x int) int { fmt.Sprint(x); return x + 1223 }

func (v nameV) m151(x int) int { fmt.Sprint(x); return x + 1224 }

func (v nameV) m152(x int) int { fmt.Sprint(x); return x + 1225 }

func (v nameV) m153(x int) int { fmt.Sprint(x); return x + 1226 }

func (v nameV) m154(x int) int { fmt.Sprint(x); return x + 1227 }

func (v nameV) m155(x int) int { fmt.Sprint(x); return x + 1228 }

func (v nameV) m156(x int) int { fmt.Sprint(x); return x + 1229 }

func (v nameV) m157(x int) int { fmt.Sprint(x); return x + 1230 }

func (v nameV) m158(x int) int { fmt.Sprint(x); return x + 1231 }

func (v nameV) m159(x int) int { fmt.Sprint(x); return x + 1232 }

func (v nameV) m160(x int) int { fmt.Sprint(x); return x + 1233 }

func (v nameV) m161(x int) int { fmt.Sprint(x); return x + 1234 }

func (v nameV) m162(x int) int { fmt.Sprint(x); return x + 1235 }

func (v nameV) m163(x int) int { fmt.Sprint(x); return x + 1236 }

func (v nameV) m164(x int) int { fmt.Sprint(x); return x + 1237 }

func (v nameV) m165(x int) int { fmt.Sprint(x); return x + 1238 }

func (v nameV) m166(x int) int { fmt.Sprint(x); return x + 1239 }

func (v nameV) m167(x int) int { fmt.Sprint(x); return x + 1240 }

func (v nameV) m168(x int) int { fmt.Sprint(x); return x + 1241 }

func (v nameV) m169(x int) int { fmt.Sprint(x); return x + 1242 }

func (v nameV) m170(x int) int { fmt.Sprint(x); return x + 1243 }

func (v nameV) m171(x int) int { fmt.Sprint(x); return x + 1244 }

func (v nameV) m172(x int) int { fmt.Sprint(x); return x + 1245 }

func (v nameV) m173(x int) int { fmt.Sprint(x); return x + 1246 }

func (v nameV) m174(x int) int { fmt.Sprint(x); return x + 1247 }

func (v nameV) m175(x int) int { fmt.Sprint(x); return x + 1248 }

func (v nameV) m176(x int) int { fmt.Sprint(x); return x + 1249 }

func (v nameV) m177(x int) int { fmt.Sprint(x); return x + 1250 }

func (v nameV) m178(x int) int { fmt.Sprint(x); return x + 1251 }

func (v nameV) m179(x int) int { fmt.Sprint(x); return x + 1252 }

func (v nameV) m180(x int) int { fmt.Sprint(x); return x + 1253 }

func (v nameV) m181(x int) int { fmt.Sprint(x); return x + 1254 }

func (v nameV) m182(x int) int { fmt.Sprint(x); return x + 1255 }

func (v nameV) m183(x int) int { fmt.Sprint(x); return x + 1256 }

func (v nameV) m184(x int) int { fmt.Sprint(x); return x + 1257 }

func (v nameV) m185(x int) int { fmt.Sprint(x); return x + 1258 }

func (v nameV) m186(x int) int { fmt.Sprint(x); return x + 1259 }

func (v nameV) m187(x int) int { fmt.Sprint(x); return x + 1260 }

func (v nameV) m188(x int) int { fmt.Sprint(x); return x + 1261 }

func (v nameV) m189(x int) int { fmt.Sprint(x); return x + 1262 }

func (v nameV) m190(x int) int { fmt.Sprint(x); return x + 1263 }

func (v nameV) m191(x int) int { fmt.Sprint(x); return x + 1264 }

func (v nameV) m192(x int) int { fmt.Sprint(x); return x + 1265 }

func (v nameV) m193(x int) int { fmt.Sprint(x); return x + 1266 }

func (v nameV) m194(x int) int { fmt.Sprint(x); return x + 1267 }

func (v nameV) m195(x int) int { fmt.Sprint(x); return x + 1268 }

func (v nameV) m196(x int) int { fmt.Sprint(x); return x + 1269 }

func (v nameV) m197(x int) int { fmt.Sprint(x); return x + 1270 }

func (v nameV) m198(x int) int { fmt.Sprint(x); return x + 1271 }

func (v nameV) m199(x int) int { fmt.Sprint(x); return x + 1272 }

func (v *nameP) a(x int) int { fmt.Sprint(x); return x + 1000 }

func (v *nameP) B(x int) int { fmt.Sprint(x); return x + 1001 }

func (v *nameP) aa(x int) int { fmt.Sprint(x); return x + 1002 }

func (v *nameP) BB(x int) int { fmt.Sprint(x); return x + 1003 }

func (v *nameP) aaa(x int) int { fmt.Sprint(x); return x + 1004 }

func (v *nameP) BBB(x int) int { fmt.Sprint(x); return x + 1005 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1006 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1007 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1008 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1009 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1010 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1011 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1012 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1013 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1014 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1015 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1016 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1017 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1018 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1019 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1020 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1021 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1022 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1023 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1024 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1025 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1026 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1027 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1028 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1029 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1030 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1031 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1032 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1033 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1034 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1035 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1036 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1037 }

func (v *nameP) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1038 }

func (v *nameP) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1039 }

func (v *nameP) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1040 }

func (v *nameP) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1041 }

func (v *nameP) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1042 }

func (v *nameP) __(x int) int { fmt.Sprint(x); return x + 1043 }

func (v *nameP) _a(x int) int { fmt.Sprint(x); return x + 1044 }

func (v *nameP) _A(x int) int { fmt.Sprint(x); return x + 1045 }

func (v *nameP) é(x int) int { fmt.Sprint(x); return x + 1046 }

func (v *nameP) éa(x int) int { fmt.Sprint(x); return x + 1047 }

func (v *nameP) ée(x int) int { fmt.Sprint(x); return x + 1048 }

func (v *nameP) É(x int) int { fmt.Sprint(x); return x + 1049 }

func (v *nameP) Éa(x int) int { fmt.Sprint(x); return x + 1050 }

func (v *nameP) 世(x int) int { fmt.Sprint(x); return x + 1051 }

func (v *nameP) 世界(x int) int { fmt.Sprint(x); return x + 1052 }

func (v *nameP) aé(x int) int { fmt.Sprint(x); return x + 1053 }

func (v *nameP) Aé(x int) int { fmt.Sprint(x); return x + 1054 }

func (v *nameP) aÉ(x int) int { fmt.Sprint(x); return x + 1055 }

func (v *nameP) x1(x int) int { fmt.Sprint(x); return x + 1056 }

func (v *nameP) x10(x int) int { fmt.Sprint(x); return x + 1057 }

func (v *nameP) x100(x int) int { fmt.Sprint(x); return x + 1058 }

func (v *nameP) X1(x int) int { fmt.Sprint(x); return x + 1059 }

func (v *nameP) X10(x int) int { fmt.Sprint(x); return x + 1060 }

func (v *nameP) string(x int) int { fmt.Sprint(x); return x + 1061 }

func (v *nameP) String(x int) int { fmt.Sprint(x); return x + 1062 }

func (v *nameP) error(x int) int { fmt.Sprint(x); return x + 1063 }

func (v *nameP) Error(x int) int { fmt.Sprint(x); return x + 1064 }

func (v *nameP) len(x int) int { fmt.Sprint(x); return x + 1065 }

func (v *nameP) init_(x int) int { fmt.Sprint(x); return x + 1066 }

func (v *nameP) main(x int) int { fmt.Sprint(x); return x + 1067 }

func (v *nameP) glob(x int) int { fmt.Sprint(x); return x + 1068 }

func (v *nameP) func1(x int) int { fmt.Sprint(x); return x + 1069 }

func (v *nameP) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1070 }

func (v *nameP) éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1071 }

func (v *nameP) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1072 }

func (v *nameP) m0(x int) int { fmt.Sprint(x); return x + 1073 }

func (v *nameP) m1(x int) int { fmt.Sprint(x); return x + 1074 }

func (v *nameP) m2(x int) int { fmt.Sprint(x); return x + 1075 }

func (v *nameP) m3(x int) int { fmt.Sprint(x); return x + 1076 }

func (v *nameP) m4(x int) int { fmt.Sprint(x); return x + 1077 }

func (v *nameP) m5(x int) int { fmt.Sprint(x); return x + 1078 }

func (v *nameP) m6(x int) int { fmt.Sprint(x); return x + 1079 }

func (v *nameP) m7(x int) int { fmt.Sprint(x); return x + 1080 }

func (v *nameP) m8(x int) int { fmt.Sprint(x); return x + 1081 }

func (v *nameP) m9(x int) int { fmt.Sprint(x); return x + 1082 }

func (v *nameP) m10(x int) int { fmt.Sprint(x); return x + 1083 }

func (v *nameP) m11(x int) int { fmt.Sprint(x); return x + 1084 }

func (v *nameP) m12(x int) int { fmt.Sprint(x); return x + 1085 }

func (v *nameP) m13(x int) int { fmt.Sprint(x); return x + 1086 }

func (v *nameP) m14(x int) int { fmt.Sprint(x); return x + 1087 }

func (v *nameP) m15(x int) int { fmt.Sprint(x); return x + 1088 }

func (v *nameP) m16(x int) int { fmt.Sprint(x); return x + 1089 }

func (v *nameP) m17(x int) int { fmt.Sprint(x); return x + 1090 }

func (v *nameP) m18(x int) int { fmt.Sprint(x); return x + 1091 }

func (v *nameP) m19(x int) int { fmt.Sprint(x); return x + 1092 }

func (v *nameP) m20(x int) int { fmt.Sprint(x); return x + 1093 }

func (v *nameP) m21(x int) int { fmt.Sprint(x); return x + 1094 }

func (v *nameP) m22(x int) int { fmt.Sprint(x); return x + 1095 }

func (v *nameP) m23(x int) int { fmt.Sprint(x); return x + 1096 }

func (v *nameP) m24(x int) int { fmt.Sprint(x); return x + 1097 }

func (v *nameP) m25(x int) int { fmt.Sprint(x); return x + 1098 }

func (v *nameP) m26(x int) int { fmt.Sprint(x); return x + 1099 }

func (v *nameP) m27(x int) int { fmt.Sprint(x); return x + 1100 }

func (v *nameP) m28(x int) int { fmt.Sprint(x); return x + 1101 }

func (v *nameP) m29(x int) int { fmt.Sprint(x); return x + 1102 }

func (v *nameP) m30(x int) int { fmt.Sprint(x); return x + 1103 }

func (v *nameP) m31(x int) int { fmt.Sprint(x); return x + 1104 }

func (v *nameP) m32(x int) int { fmt.Sprint(x); return x + 1105 }

func (v *nameP) m33(x int) int { fmt.Sprint(x); return x + 1106 }

func (v *nameP) m34(x int) int { fmt.Sprint(x); return x + 1107 }

func (v *nameP) m35(x int) int { fmt.Sprint(x); return x + 1108 }

func (v *nameP) m36(x int) int { fmt.Sprint(x); return x + 1109 }

func (v *nameP) m37(x int) int { fmt.Sprint(x); return x + 1110 }

func (v *nameP) m38(x int) int { fmt.Sprint(x); return x + 1111 }

func (v *nameP) m39(x int) int { fmt.Sprint(x); return x + 1112 }

func (v *nameP) m40(x int) int { fmt.Sprint(x); return x + 1113 }

func (v *nameP) m41(x int) int { fmt.Sprint(x); return x + 1114 }

func (v *nameP) m42(x int) int { fmt.Sprint(x); return x + 1115 }

func (v *nameP) m43(x int) int { fmt.Sprint(x); return x + 1116 }

func (v *nameP) m44(x int) int { fmt.Sprint(x); return x + 1117 }

func (v *nameP) m45(x int) int { fmt.Sprint(x); return x + 1118 }

func (v *nameP) m46(x int) int { fmt.Sprint(x); return x + 1119 }

func (v *nameP) m47(x int) int { fmt.Sprint(x); return x + 1120 }

func (v *nameP) m48(x int) int { fmt.Sprint(x); return x + 1121 }

func (v *nameP) m49(x int) int { fmt.Sprint(x); return x + 1122 }

func (v *nameP) m50(x int) int { fmt.Sprint(x); return x + 1123 }

func (v *nameP) m51(x int) int { fmt.Sprint(x); return x + 1124 }

func (v *nameP) m52(x int) int { fmt.Sprint(x); return x + 1125 }

func (v *nameP) m53(x int) int { fmt.Sprint(x); return x + 1126 }

func (v *nameP) m54(x int) int { fmt.Sprint(x); return x + 1127 }

func (v *nameP) m55(x int) int { fmt.Sprint(x); return x + 1128 }

func (v *nameP) m56(x int) int { fmt.Sprint(x); return x + 1129 }

func (v *nameP) m57(x int) int { fmt.Sprint(x); return x + 1130 }

func (v *nameP) m58(x int) int { fmt.Sprint(x); return x + 1131 }

func (v *nameP) m59(x int) int { fmt.Sprint(x); return x + 1132 }

func (v *nameP) m60(x int) int { fmt.Sprint(x); return x + 1133 }

func (v *nameP) m61(x int) int { fmt.Sprint(x); return x + 1134 }

func (v *nameP) m62(x int) int { fmt.Sprint(x); return x + 1135 }

func (v *nameP) m63(x int) int { fmt.Sprint(x); return x + 1136 }

func (v *nameP) m64(x int) int { fmt.Sprint(x); return x + 1137 }

func (v *nameP) m65(x int) int { fmt.Sprint(x); return x + 1138 }

func (v *nameP) m66(x int) int { fmt.Sprint(x); return x + 1139 }

func (v *nameP) m67(x int) int { fmt.Sprint(x); return x + 1140 }

func (v *nameP) m68(x int) int { fmt.Sprint(x); return x + 1141 }

func (v *nameP) m69(x int) int { fmt.Sprint(x); return x + 1142 }

func (v *nameP) m70(x int) int { fmt.Sprint(x); return x + 1143 }

func (v *nameP) m71(x int) int { fmt.Sprint(x); return x + 1144 }

func (v *nameP) m72(x int) int { fmt.Sprint(x); return x + 1145 }

func (v *nameP) m73(x int) int { fmt.Sprint(x); return x + 1146 }

func (v *nameP) m74(x int) int { fmt.Sprint(x); return x + 1147 }

func (v *nameP) m75(x int) int { fmt.Sprint(x); return x + 1148 }

func (v *nameP) m76(x int) int { fmt.Sprint(x); return x + 1149 }

func (v *nameP) m77(x int) int { fmt.Sprint(x); return x + 1150 }

func (v *nameP) m78(x int) int { fmt.Sprint(x); return x + 1151 }

func (v *nameP) m79(x int) int { fmt.Sprint(x); return x + 1152 }

func (v *nameP) m80(x int) int { fmt.Sprint(x); return x + 1153 }

func (v *nameP) m81(x int) int { fmt.Sprint(x); return x + 1154 }

func (v *nameP) m82(x int) int { fmt.Sprint(x); return x + 1155 }

func (v *nameP) m83(x int) int { fmt.Sprint(x); return x + 1156 }

func (v *nameP) m84(x int) int { fmt.Sprint(x); return x + 1157 }

func (v *nameP) m85(x int) int { fmt.Sprint(x); return x + 1158 }

func (v *nameP) m86(x int) int { fmt.Sprint(x); return x + 1159 }

func (v *nameP) m87(x int) int { fmt.Sprint(x); return x + 1160 }

func (v *nameP) m88(x int) int { fmt.Sprint(x); return x + 1161 }

func (v *nameP) m89(x int) int { fmt.Sprint(x); return x + 1162 }

func (v *nameP) m90(x int) int { fmt.Sprint(x); return x + 1163 }

func (v *nameP) m91(x int) int { fmt.Sprint(x); return x + 1164 }

func (v *nameP) m92(x int) int { fmt.Sprint(x); return x + 1165 }

func (v *nameP) m93(x int) int { fmt.Sprint(x); return x + 1166 }

func (v *nameP) m94(x int) int { fmt.Sprint(x); return x + 1167 }

func (v *nameP) m95(x int) int { fmt.Sprint(x); return x + 1168 }

func (v *nameP) m96(x int) int { fmt.Sprint(x); return x + 1169 }

func (v *nameP) m97(x int) int { fmt.Sprint(x); return x + 1170 }

func (v *nameP) m98(x int) int { fmt.Sprint(x); return x + 1171 }

func (v *nameP) m99(x int) int { fmt.Sprint(x); return x + 1172 }

func (v *nameP) m100(x int) int { fmt.Sprint(x); return x + 1173 }

func (v *nameP) m101(x int) int { fmt.Sprint(x); return x + 1174 }

func (v *nameP) m102(x int) int { fmt.Sprint(x); return x + 1175 }

func (v *nameP) m103(x int) int { fmt.Sprint(x); return x + 1176 }

func (v *nameP) m104(x int) int { fmt.Sprint(x); return x + 1177 }

func (v *nameP) m105(x int) int { fmt.Sprint(x); return x + 1178 }

func (v *nameP) m106(x int) int { fmt.Sprint(x); return x + 1179 }

func (v *nameP) m107(x int) int { fmt.Sprint(x); return x + 1180 }

func (v *nameP) m108(x int) int { fmt.Sprint(x); return x + 1181 }

func (v *nameP) m109(x int) int { fmt.Sprint(x); return x + 1182 }

func (v *nameP) m110(x int) int { fmt.Sprint(x); return x + 1183 }

func (v *nameP) m111(x int) int { fmt.Sprint(x); return x + 1184 }

func (v *nameP) m112(x int) int { fmt.Sprint(x); return x + 1185 }

func (v *nameP) m113(x int) int { fmt.Sprint(x); return x + 1186 }

func (v *nameP) m114(x int) int { fmt.Sprint(x); return x + 1187 }

func (v *nameP) m115(x int) int { fmt.Sprint(x); return x + 1188 }

func (v *nameP) m116(x int) int { fmt.Sprint(x); return x + 1189 }

func (v *nameP) m117(x int) int { fmt.Sprint(x); return x + 1190 }

func (v *nameP) m118(x int) int { fmt.Sprint(x); return x + 1191 }

func (v *nameP) m119(x int) int { fmt.Sprint(x); return x + 1192 }

func (v *nameP) m120(x int) int { fmt.Sprint(x); return x + 1193 }

func (v *nameP) m121(x int) int { fmt.Sprint(x); return x + 1194 }

func (v *nameP) m122(x int) int { fmt.Sprint(x); return x + 1195 }

func (v *nameP) m123(x int) int { fmt.Sprint(x); return x + 1196 }

func (v *nameP) m124(x int) int { fmt.Sprint(x); return x + 1197 }

func (v *nameP) m125(x int) int { fmt.Sprint(x); return x + 1198 }

func (v *nameP) m126(x int) int { fmt.Sprint(x); return x + 1199 }

func (v *nameP) m127(x int) int { fmt.Sprint(x); return x + 1200 }

func (v *nameP) m128(x int) int { fmt.Sprint(x); return x + 1201 }

func (v *nameP) m129(x int) int { fmt.Sprint(x); return x + 1202 }

func (v *nameP) m130(x int) int { fmt.Sprint(x); return x + 1203 }

func (v *nameP) m131(x int) int { fmt.Sprint(x); return x + 1204 }

func (v *nameP) m132(x int) int { fmt.Sprint(x); return x + 1205 }

func (v *nameP) m133(x int) int { fmt.Sprint(x); return x + 1206 }

func (v *nameP) m134(x int) int { fmt.Sprint(x); return x + 1207 }

func (v *nameP) m135(x int) int { fmt.Sprint(x); return x + 1208 }

func (v *nameP) m136(x int) int { fmt.Sprint(x); return x + 1209 }

func (v *nameP) m137(x int) int { fmt.Sprint(x); return x + 1210 }

func (v *nameP) m138(x int) int { fmt.Sprint(x); return x + 1211 }

func (v *nameP) m139(x int) int { fmt.Sprint(x); return x + 1212 }

func (v *nameP) m140(x int) int { fmt.Sprint(x); return x + 1213 }

func (v *nameP) m141(x int) int { fmt.Sprint(x); return x + 1214 }

func (v *nameP) m142(x int) int { fmt.Sprint(x); return x + 1215 }

func (v *nameP) m143(x int) int { fmt.Sprint(x); return x + 1216 }

func (v *nameP) m144(x int) int { fmt.Sprint(x); return x + 1217 }

func (v *nameP) m145(x int) int { fmt.Sprint(x); return x + 1218 }

func (v *nameP) m146(x int) int { fmt.Sprint(x); return x + 1219 }

func (v *nameP) m147(x int) int { fmt.Sprint(x); return x + 1220 }

func (v *nameP) m148(x int) int { fmt.Sprint(x); return x + 1221 }

func (v *nameP) m149(x int) int { fmt.Sprint(x); return x + 1222 }

func (v *nameP) m150(x int) int { fmt.Sprint(x); return x + 1223 }

func (v *nameP) m151(x int) int { fmt.Sprint(x); return x + 1224 }

func (v *nameP) m152(x int) int { fmt.Sprint(x); return x + 1225 }

func (v *nameP) m153(x int) int { fmt.Sprint(x); return x + 1226 }

func (v *nameP) m154(x int) int { fmt.Sprint(x); return x + 1227 }

func (v *nameP) m155(x int) int { fmt.Sprint(x); return x + 1228 }

func (v *nameP) m156(x int) int { fmt.Sprint(x); return x + 1229 }

func (v *nameP) m157(x int) int { fmt.Sprint(x); return x + 1230 }

func (v *nameP) m158(x int) int { fmt.Sprint(x); return x + 1231 }

func (v *nameP) m159(x int) int { fmt.Sprint(x); return x + 1232 }

func (v *nameP) m160(x int) int { fmt.Sprint(x); return x + 1233 }

func (v *nameP) m161(x int) int { fmt.Sprint(x); return x + 1234 }

func (v *nameP) m162(x int) int { fmt.Sprint(x); return x + 1235 }

func (v *nameP) m163(x int) int { fmt.Sprint(x); return x + 1236 }

func (v *nameP) m164(x int) int { fmt.Sprint(x); return x + 1237 }

func (v *nameP) m165(x int) int { fmt.Sprint(x); return x + 1238 }

func (v *nameP) m166(x int) int { fmt.Sprint(x); return x + 1239 }

func (v *nameP) m167(x int) int { fmt.Sprint(x); return x + 1240 }

func (v *nameP) m168(x int) int { fmt.Sprint(x); return x + 1241 }

func (v *nameP) m169(x int) int { fmt.Sprint(x); return x + 1242 }

func (v *nameP) m170(x int) int { fmt.Sprint(x); return x + 1243 }

func (v *nameP) m171(x int) int { fmt.Sprint(x); return x + 1244 }

func (v *nameP) m172(x int) int { fmt.Sprint(x); return x + 1245 }

func (v *nameP) m173(x int) int { fmt.Sprint(x); return x + 1246 }

func (v *nameP) m174(x int) int { fmt.Sprint(x); return x + 1247 }

func (v *nameP) m175(x int) int { fmt.Sprint(x); return x + 1248 }

func (v *nameP) m176(x int) int { fmt.Sprint(x); return x + 1249 }

func (v *nameP) m177(x int) int { fmt.Sprint(x); return x + 1250 }

func (v *nameP) m178(x int) int { fmt.Sprint(x); return x + 1251 }

func (v *nameP) m179(x int) int { fmt.Sprint(x); return x + 1252 }

func (v *nameP) m180(x int) int { fmt.Sprint(x); return x + 1253 }

func (v *nameP) m181(x int) int { fmt.Sprint(x); return x + 1254 }

func (v *nameP) m182(x int) int { fmt.Sprint(x); return x + 1255 }

func (v *nameP) m183(x int) int { fmt.Sprint(x); return x + 1256 }

func (v *nameP) m184(x int) int { fmt.Sprint(x); return x + 1257 }

func (v *nameP) m185(x int) int { fmt.Sprint(x); return x + 1258 }

func (v *nameP) m186(x int) int { fmt.Sprint(x); return x + 1259 }

func (v *nameP) m187(x int) int { fmt.Sprint(x); return x + 1260 }

func (v *nameP) m188(x int) int { fmt.Sprint(x); return x + 1261 }

func (v *nameP) m189(x int) int { fmt.Sprint(x); return x + 1262 }

func (v *nameP) m190(x int) int { fmt.Sprint(x); return x + 1263 }

func (v *nameP) m191(x int) int { fmt.Sprint(x); return x + 1264 }

func (v *nameP) m192(x int) int { fmt.Sprint(x); return x + 1265 }

func (v *nameP) m193(x int) int { fmt.Sprint(x); return x + 1266 }

func (v *nameP) m194(x int) int { fmt.Sprint(x); return x + 1267 }

func (v *nameP) m195(x int) int { fmt.Sprint(x); return x + 1268 }

func (v *nameP) m196(x int) int { fmt.Sprint(x); return x + 1269 }

func (v *nameP) m197(x int) int { fmt.Sprint(x); return x + 1270 }

func (v *nameP) m198(x int) int { fmt.Sprint(x); return x + 1271 }

func (v *nameP) m199(x int) int { fmt.Sprint(x); return x + 1272 }

func (v nameI) a(x int) int { fmt.Sprint(x); return x + 1000 }

func (v nameI) B(x int) int { fmt.Sprint(x); return x + 1001 }

func (v nameI) aa(x int) int { fmt.Sprint(x); return x + 1002 }

func (v nameI) BB(x int) int { fmt.Sprint(x); return x + 1003 }

func (v nameI) aaa(x int) int { fmt.Sprint(x); return x + 1004 }

func (v nameI) BBB(x int) int { fmt.Sprint(x); return x + 1005 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1006 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1007 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1008 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1009 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1010 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1011 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1012 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1013 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1014 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1015 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1016 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1017 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1018 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1019 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1020 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1021 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1022 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1023 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1024 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1025 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1026 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1027 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1028 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1029 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1030 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1031 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1032 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1033 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1034 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1035 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1036 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1037 }

func (v nameI) aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x int) int { fmt.Sprint(x); return x + 1038 }

func (v nameI) BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x int) int { fmt.Sprint(x); return x + 1039 }

func (v nameI) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1040 }

func (v nameI) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1041 }

func (v nameI) bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x int) int { fmt.Sprint(x); return x + 1042 }

func (v nameI) __(x int) int { fmt.Sprint(x); return x + 1043 }

func (v nameI) _a(x int) int { fmt.Sprint(x); return x + 1044 }

func (v nameI) _A(x int) int { fmt.Sprint(x); return x + 1045 }

func (v nameI) é(x int) int { fmt.Sprint(x); return x + 1046 }

func (v nameI) éa(x int) int { fmt.Sprint(x); return x + 1047 }

func (v nameI) ée(x int) int { fmt.Sprint(x); return x + 1048 }

func (v nameI) É(x int) int { fmt.Sprint(x); return x + 1049 }

func (v nameI) Éa(x int) int { fmt.Sprint(x); return x + 1050 }

func (v nameI) 世(x int) int { fmt.Sprint(x); return x + 1051 }

func (v nameI) 世界(x int) int { fmt.Sprint(x); return x + 1052 }

func (v nameI) aé(x int) int { fmt.Sprint(x); return x + 1053 }

func (v nameI) Aé(x int) int { fmt.Sprint(x); return x + 1054 }

func (v nameI) aÉ(x int) int { fmt.Sprint(x); return x + 1055 }

func (v nameI) x1(x int) int { fmt.Sprint(x); return x + 1056 }

func (v nameI) x10(x int) int { fmt.Sprint(x); return x + 1057 }

func (v nameI) x100(x int) int { fmt.Sprint(x); return x + 1058 }

func (v nameI) X1(x int) int { fmt.Sprint(x); return x + 1059 }

func (v nameI) X10(x int) int { fmt.Sprint(x); return x + 1060 }

func (v nameI) string(x int) int { fmt.Sprint(x); return x + 1061 }

func (v nameI) String(x int) int { fmt.Sprint(x); return x + 1062 }

func (v nameI) error(x int) int { fmt.Sprint(x); return x + 1063 }

func (v nameI) Error(x int) int { fmt.Sprint(x); return x + 1064 }

func (v nameI) len(x int) int { fmt.Sprint(x); return x + 1065 }

func (v nameI) init_(x int) int { fmt.Sprint(x); return x + 1066 }

func (v nameI) main(x int) int { fmt.Sprint(x); return x + 1067 }

func (v nameI) glob(x int) int { fmt.Sprint(x); return x + 1068 }

func (v nameI) func1(x int) int { fmt.Sprint(x); return x + 1069 }

func (v nameI) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1070 }

func (v nameI) éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1071 }

func (v nameI) ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x int) int { fmt.Sprint(x); return x + 1072 }

func (v nameI) m0(x int) int { fmt.Sprint(x); return x + 1073 }

func (v nameI) m1(x int) int { fmt.Sprint(x); return x + 1074 }

func (v nameI) m2(x int) int { fmt.Sprint(x); return x + 1075 }

func (v nameI) m3(x int) int { fmt.Sprint(x); return x + 1076 }

func (v nameI) m4(x int) int { fmt.Sprint(x); return x + 1077 }

func (v nameI) m5(x int) int { fmt.Sprint(x); return x + 1078 }

func (v nameI) m6(x int) int { fmt.Sprint(x); return x + 1079 }

func (v nameI) m7(x int) int { fmt.Sprint(x); return x + 1080 }

func (v nameI) m8(x int) int { fmt.Sprint(x); return x + 1081 }

func (v nameI) m9(x int) int { fmt.Sprint(x); return x + 1082 }

func (v nameI) m10(x int) int { fmt.Sprint(x); return x + 1083 }

func (v nameI) m11(x int) int { fmt.Sprint(x); return x + 1084 }

func (v nameI) m12(x int) int { fmt.Sprint(x); return x + 1085 }

func (v nameI) m13(x int) int { fmt.Sprint(x); return x + 1086 }

func (v nameI) m14(x int) int { fmt.Sprint(x); return x + 1087 }

func (v nameI) m15(x int) int { fmt.Sprint(x); return x + 1088 }

func (v nameI) m16(x int) int { fmt.Sprint(x); return x + 1089 }

func (v nameI) m17(x int) int { fmt.Sprint(x); return x + 1090 }

func (v nameI) m18(x int) int { fmt.Sprint(x); return x + 1091 }

func (v nameI) m19(x int) int { fmt.Sprint(x); return x + 1092 }

func (v nameI) m20(x int) int { fmt.Sprint(x); return x + 1093 }

func (v nameI) m21(x int) int { fmt.Sprint(x); return x + 1094 }

func (v nameI) m22(x int) int { fmt.Sprint(x); return x + 1095 }

func (v nameI) m23(x int) int { fmt.Sprint(x); return x + 1096 }

func (v nameI) m24(x int) int { fmt.Sprint(x); return x + 1097 }

func (v nameI) m25(x int) int { fmt.Sprint(x); return x + 1098 }

func (v nameI) m26(x int) int { fmt.Sprint(x); return x + 1099 }

func (v nameI) m27(x int) int { fmt.Sprint(x); return x + 1100 }

func (v nameI) m28(x int) int { fmt.Sprint(x); return x + 1101 }

func (v nameI) m29(x int) int { fmt.Sprint(x); return x + 1102 }

func (v nameI) m30(x int) int { fmt.Sprint(x); return x + 1103 }

func (v nameI) m31(x int) int { fmt.Sprint(x); return x + 1104 }

func (v nameI) m32(x int) int { fmt.Sprint(x); return x + 1105 }

func (v nameI) m33(x int) int { fmt.Sprint(x); return x + 1106 }

func (v nameI) m34(x int) int { fmt.Sprint(x); return x + 1107 }

func (v nameI) m35(x int) int { fmt.Sprint(x); return x + 1108 }

func (v nameI) m36(x int) int { fmt.Sprint(x); return x + 1109 }

func (v nameI) m37(x int) int { fmt.Sprint(x); return x + 1110 }

func (v nameI) m38(x int) int { fmt.Sprint(x); return x + 1111 }

func (v nameI) m39(x int) int { fmt.Sprint(x); return x + 1112 }

func (v nameI) m40(x int) int { fmt.Sprint(x); return x + 1113 }

func (v nameI) m41(x int) int { fmt.Sprint(x); return x + 1114 }

func (v nameI) m42(x int) int { fmt.Sprint(x); return x + 1115 }

func (v nameI) m43(x int) int { fmt.Sprint(x); return x + 1116 }

func (v nameI) m44(x int) int { fmt.Sprint(x); return x + 1117 }

func (v nameI) m45(x int) int { fmt.Sprint(x); return x + 1118 }

func (v nameI) m46(x int) int { fmt.Sprint(x); return x + 1119 }

func (v nameI) m47(x int) int { fmt.Sprint(x); return x + 1120 }

func (v nameI) m48(x int) int { fmt.Sprint(x); return x + 1121 }

func (v nameI) m49(x int) int { fmt.Sprint(x); return x + 1122 }

func (v nameI) m50(x int) int { fmt.Sprint(x); return x + 1123 }

func (v nameI) m51(x int) int { fmt.Sprint(x); return x + 1124 }

func (v nameI) m52(x int) int { fmt.Sprint(x); return x + 1125 }

func (v nameI) m53(x int) int { fmt.Sprint(x); return x + 1126 }

func (v nameI) m54(x int) int { fmt.Sprint(x); return x + 1127 }

func (v nameI) m55(x int) int { fmt.Sprint(x); return x + 1128 }

func (v nameI) m56(x int) int { fmt.Sprint(x); return x + 1129 }

func (v nameI) m57(x int) int { fmt.Sprint(x); return x + 1130 }

func (v nameI) m58(x int) int { fmt.Sprint(x); return x + 1131 }

func (v nameI) m59(x int) int { fmt.Sprint(x); return x + 1132 }

func (v nameI) m60(x int) int { fmt.Sprint(x); return x + 1133 }

func (v nameI) m61(x int) int { fmt.Sprint(x); return x + 1134 }

func (v nameI) m62(x int) int { fmt.Sprint(x); return x + 1135 }

func (v nameI) m63(x int) int { fmt.Sprint(x); return x + 1136 }

func (v nameI) m64(x int) int { fmt.Sprint(x); return x + 1137 }

func (v nameI) m65(x int) int { fmt.Sprint(x); return x + 1138 }

func (v nameI) m66(x int) int { fmt.Sprint(x); return x + 1139 }

func (v nameI) m67(x int) int { fmt.Sprint(x); return x + 1140 }

func (v nameI) m68(x int) int { fmt.Sprint(x); return x + 1141 }

func (v nameI) m69(x int) int { fmt.Sprint(x); return x + 1142 }

func (v nameI) m70(x int) int { fmt.Sprint(x); return x + 1143 }

func (v nameI) m71(x int) int { fmt.Sprint(x); return x + 1144 }

func (v nameI) m72(x int) int { fmt.Sprint(x); return x + 1145 }

func (v nameI) m73(x int) int { fmt.Sprint(x); return x + 1146 }

func (v nameI) m74(x int) int { fmt.Sprint(x); return x + 1147 }

func (v nameI) m75(x int) int { fmt.Sprint(x); return x + 1148 }

func (v nameI) m76(x int) int { fmt.Sprint(x); return x + 1149 }

func (v nameI) m77(x int) int { fmt.Sprint(x); return x + 1150 }

func (v nameI) m78(x int) int { fmt.Sprint(x); return x + 1151 }

func (v nameI) m79(x int) int { fmt.Sprint(x); return x + 1152 }

func (v nameI) m80(x int) int { fmt.Sprint(x); return x + 1153 }

func (v nameI) m81(x int) int { fmt.Sprint(x); return x + 1154 }

func (v nameI) m82(x int) int { fmt.Sprint(x); return x + 1155 }

func (v nameI) m83(x int) int { fmt.Sprint(x); return x + 1156 }

func (v nameI) m84(x int) int { fmt.Sprint(x); return x + 1157 }

func (v nameI) m85(x int) int { fmt.Sprint(x); return x + 1158 }

func (v nameI) m86(x int) int { fmt.Sprint(x); return x + 1159 }

func (v nameI) m87(x int) int { fmt.Sprint(x); return x + 1160 }

func (v nameI) m88(x int) int { fmt.Sprint(x); return x + 1161 }

func (v nameI) m89(x int) int { fmt.Sprint(x); return x + 1162 }

func (v nameI) m90(x int) int { fmt.Sprint(x); return x + 1163 }

func (v nameI) m91(x int) int { fmt.Sprint(x); return x + 1164 }

func (v nameI) m92(x int) int { fmt.Sprint(x); return x + 1165 }

func (v nameI) m93(x int) int { fmt.Sprint(x); return x + 1166 }

func (v nameI) m94(x int) int { fmt.Sprint(x); return x + 1167 }

func (v nameI) m95(x int) int { fmt.Sprint(x); return x + 1168 }

func (v nameI) m96(x int) int { fmt.Sprint(x); return x + 1169 }

func (v nameI) m97(x int) int { fmt.Sprint(x); return x + 1170 }

func (v nameI) m98(x int) int { fmt.Sprint(x); return x + 1171 }

func (v nameI) m99(x int) int { fmt.Sprint(x); return x + 1172 }

func (v nameI) m100(x int) int { fmt.Sprint(x); return x + 1173 }

func (v nameI) m101(x int) int { fmt.Sprint(x); return x + 1174 }

func (v nameI) m102(x int) int { fmt.Sprint(x); return x + 1175 }

func (v nameI) m103(x int) int { fmt.Sprint(x); return x + 1176 }

func (v nameI) m104(x int) int { fmt.Sprint(x); return x + 1177 }

func (v nameI) m105(x int) int { fmt.Sprint(x); return x + 1178 }

func (v nameI) m106(x int) int { fmt.Sprint(x); return x + 1179 }

func (v nameI) m107(x int) int { fmt.Sprint(x); return x + 1180 }

func (v nameI) m108(x int) int { fmt.Sprint(x); return x + 1181 }

func (v nameI) m109(x int) int { fmt.Sprint(x); return x + 1182 }

func (v nameI) m110(x int) int { fmt.Sprint(x); return x + 1183 }

func (v nameI) m111(x int) int { fmt.Sprint(x); return x + 1184 }

func (v nameI) m112(x int) int { fmt.Sprint(x); return x + 1185 }

func (v nameI) m113(x int) int { fmt.Sprint(x); return x + 1186 }

func (v nameI) m114(x int) int { fmt.Sprint(x); return x + 1187 }

func (v nameI) m115(x int) int { fmt.Sprint(x); return x + 1188 }

func (v nameI) m116(x int) int { fmt.Sprint(x); return x + 1189 }

func (v nameI) m117(x int) int { fmt.Sprint(x); return x + 1190 }

func (v nameI) m118(x int) int { fmt.Sprint(x); return x + 1191 }

func (v nameI) m119(x int) int { fmt.Sprint(x); return x + 1192 }

func (v nameI) m120(x int) int { fmt.Sprint(x); return x + 1193 }

func (v nameI) m121(x int) int { fmt.Sprint(x); return x + 1194 }

func (v nameI) m122(x int) int { fmt.Sprint(x); return x + 1195 }

func (v nameI) m123(x int) int { fmt.Sprint(x); return x + 1196 }

func (v nameI) m124(x int) int { fmt.Sprint(x); return x + 1197 }

func (v nameI) m125(x int) int { fmt.Sprint(x); return x + 1198 }

func (v nameI) m126(x int) int { fmt.Sprint(x); return x + 1199 }

func (v nameI) m127(x int) int { fmt.Sprint(x); return x + 1200 }

func (v nameI) m128(x int) int { fmt.Sprint(x); return x + 1201 }

func (v nameI) m129(x int) int { fmt.Sprint(x); return x + 1202 }

func (v nameI) m130(x int) int { fmt.Sprint(x); return x + 1203 }

func (v nameI) m131(x int) int { fmt.Sprint(x); return x + 1204 }

func (v nameI) m132(x int) int { fmt.Sprint(x); return x + 1205 }

func (v nameI) m133(x int) int { fmt.Sprint(x); return x + 1206 }

func (v nameI) m134(x int) int { fmt.Sprint(x); return x + 1207 }

func (v nameI) m135(x int) int { fmt.Sprint(x); return x + 1208 }

func (v nameI) m136(x int) int { fmt.Sprint(x); return x + 1209 }

func (v nameI) m137(x int) int { fmt.Sprint(x); return x + 1210 }

func (v nameI) m138(x int) int { fmt.Sprint(x); return x + 1211 }

func (v nameI) m139(x int) int { fmt.Sprint(x); return x + 1212 }

func (v nameI) m140(x int) int { fmt.Sprint(x); return x + 1213 }

func (v nameI) m141(x int) int { fmt.Sprint(x); return x + 1214 }

func (v nameI) m142(x int) int { fmt.Sprint(x); return x + 1215 }

func (v nameI) m143(x int) int { fmt.Sprint(x); return x + 1216 }

func (v nameI) m144(x int) int { fmt.Sprint(x); return x + 1217 }

func (v nameI) m145(x int) int { fmt.Sprint(x); return x + 1218 }

func (v nameI) m146(x int) int { fmt.Sprint(x); return x + 1219 }

func (v nameI) m147(x int) int { fmt.Sprint(x); return x + 1220 }

func (v nameI) m148(x int) int { fmt.Sprint(x); return x + 1221 }

func (v nameI) m149(x int) int { fmt.Sprint(x); return x + 1222 }

func (v nameI) m150(x int) int { fmt.Sprint(x); return x + 1223 }

func (v nameI) m151(x int) int { fmt.Sprint(x); return x + 1224 }

func (v nameI) m152(x int) int { fmt.Sprint(x); return x + 1225 }

func (v nameI) m153(x int) int { fmt.Sprint(x); return x + 1226 }

func (v nameI) m154(x int) int { fmt.Sprint(x); return x + 1227 }

func (v nameI) m155(x int) int { fmt.Sprint(x); return x + 1228 }

func (v nameI) m156(x int) int { fmt.Sprint(x); return x + 1229 }

func (v nameI) m157(x int) int { fmt.Sprint(x); return x + 1230 }

func (v nameI) m158(x int) int { fmt.Sprint(x); return x + 1231 }

func (v nameI) m159(x int) int { fmt.Sprint(x); return x + 1232 }

func (v nameI) m160(x int) int { fmt.Sprint(x); return x + 1233 }

func (v nameI) m161(x int) int { fmt.Sprint(x); return x + 1234 }

func (v nameI) m162(x int) int { fmt.Sprint(x); return x + 1235 }

func (v nameI) m163(x int) int { fmt.Sprint(x); return x + 1236 }

func (v nameI) m164(x int) int { fmt.Sprint(x); return x + 1237 }

func (v nameI) m165(x int) int { fmt.Sprint(x); return x + 1238 }

func (v nameI) m166(x int) int { fmt.Sprint(x); return x + 1239 }

func (v nameI) m167(x int) int { fmt.Sprint(x); return x + 1240 }

func (v nameI) m168(x int) int { fmt.Sprint(x); return x + 1241 }

func (v nameI) m169(x int) int { fmt.Sprint(x); return x + 1242 }

func (v nameI) m170(x int) int { fmt.Sprint(x); return x + 1243 }

func (v nameI) m171(x int) int { fmt.Sprint(x); return x + 1244 }

func (v nameI) m172(x int) int { fmt.Sprint(x); return x + 1245 }

func (v nameI) m173(x int) int { fmt.Sprint(x); return x + 1246 }

func (v nameI) m174(x int) int { fmt.Sprint(x); return x + 1247 }

func (v nameI) m175(x int) int { fmt.Sprint(x); return x + 1248 }

func (v nameI) m176(x int) int { fmt.Sprint(x); return x + 1249 }

func (v nameI) m177(x int) int { fmt.Sprint(x); return x + 1250 }

func (v nameI) m178(x int) int { fmt.Sprint(x); return x + 1251 }

func (v nameI) m179(x int) int { fmt.Sprint(x); return x + 1252 }

func (v nameI) m180(x int) int { fmt.Sprint(x); return x + 1253 }

func (v nameI) m181(x int) int { fmt.Sprint(x); return x + 1254 }

func (v nameI) m182(x int) int { fmt.Sprint(x); return x + 1255 }

func (v nameI) m183(x int) int { fmt.Sprint(x); return x + 1256 }

func (v nameI) m184(x int) int { fmt.Sprint(x); return x + 1257 }

func (v nameI) m185(x int) int { fmt.Sprint(x); return x + 1258 }

func (v nameI) m186(x int) int { fmt.Sprint(x); return x + 1259 }

func (v nameI) m187(x int) int { fmt.Sprint(x); return x + 1260 }

func (v nameI) m188(x int) int { fmt.Sprint(x); return x + 1261 }

func (v nameI) m189(x int) int { fmt.Sprint(x); return x + 1262 }

func (v nameI) m190(x int) int { fmt.Sprint(x); return x + 1263 }

func (v nameI) m191(x int) int { fmt.Sprint(x); return x + 1264 }

func (v nameI) m192(x int) int { fmt.Sprint(x); return x + 1265 }

func (v nameI) m193(x int) int { fmt.Sprint(x); return x + 1266 }

func (v nameI) m194(x int) int { fmt.Sprint(x); return x + 1267 }

func (v nameI) m195(x int) int { fmt.Sprint(x); return x + 1268 }

func (v nameI) m196(x int) int { fmt.Sprint(x); return x + 1269 }

func (v nameI) m197(x int) int { fmt.Sprint(x); return x + 1270 }

func (v nameI) m198(x int) int { fmt.Sprint(x); return x + 1271 }

func (v nameI) m199(x int) int { fmt.Sprint(x); return x + 1272 }

var methodNames = []string{
	"a",
	"B",
	"aa",
	"BB",
	"aaa",
	"BBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB",
	"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc",
	"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc",
	"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc",
	"__",
	"_a",
	"_A",
	"é",
	"éa",
	"ée",
	"É",
	"Éa",
	"世",
	"世界",
	"aé",
	"Aé",
	"aÉ",
	"x1",
	"x10",
	"x100",
	"X1",
	"X10",
	"string",
	"String",
	"error",
	"Error",
	"len",
	"init_",
	"main",
	"glob",
	"func1",
	"ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé",
	"éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé",
	"ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé",
	"m0",
	"m1",
	"m2",
	"m3",
	"m4",
	"m5",
	"m6",
	"m7",
	"m8",
	"m9",
	"m10",
	"m11",
	"m12",
	"m13",
	"m14",
	"m15",
	"m16",
	"m17",
	"m18",
	"m19",
	"m20",
	"m21",
	"m22",
	"m23",
	"m24",
	"m25",
	"m26",
	"m27",
	"m28",
	"m29",
	"m30",
	"m31",
	"m32",
	"m33",
	"m34",
	"m35",
	"m36",
	"m37",
	"m38",
	"m39",
	"m40",
	"m41",
	"m42",
	"m43",
	"m44",
	"m45",
	"m46",
	"m47",
	"m48",
	"m49",
	"m50",
	"m51",
	"m52",
	"m53",
	"m54",
	"m55",
	"m56",
	"m57",
	"m58",
	"m59",
	"m60",
	"m61",
	"m62",
	"m63",
	"m64",
	"m65",
	"m66",
	"m67",
	"m68",
	"m69",
	"m70",
	"m71",
	"m72",
	"m73",
	"m74",
	"m75",
	"m76",
	"m77",
	"m78",
	"m79",
	"m80",
	"m81",
	"m82",
	"m83",
	"m84",
	"m85",
	"m86",
	"m87",
	"m88",
	"m89",
	"m90",
	"m91",
	"m92",
	"m93",
	"m94",
	"m95",
	"m96",
	"m97",
	"m98",
	"m99",
	"m100",
	"m101",
	"m102",
	"m103",
	"m104",
	"m105",
	"m106",
	"m107",
	"m108",
	"m109",
	"m110",
	"m111",
	"m112",
	"m113",
	"m114",
	"m115",
	"m116",
	"m117",
	"m118",
	"m119",
	"m120",
	"m121",
	"m122",
	"m123",
	"m124",
	"m125",
	"m126",
	"m127",
	"m128",
	"m129",
	"m130",
	"m131",
	"m132",
	"m133",
	"m134",
	"m135",
	"m136",
	"m137",
	"m138",
	"m139",
	"m140",
	"m141",
	"m142",
	"m143",
	"m144",
	"m145",
	"m146",
	"m147",
	"m148",
	"m149",
	"m150",
	"m151",
	"m152",
	"m153",
	"m154",
	"m155",
	"m156",
	"m157",
	"m158",
	"m159",
	"m160",
	"m161",
	"m162",
	"m163",
	"m164",
	"m165",
	"m166",
	"m167",
	"m168",
	"m169",
	"m170",
	"m171",
	"m172",
	"m173",
	"m174",
	"m175",
	"m176",
	"m177",
	"m178",
	"m179",
	"m180",
	"m181",
	"m182",
	"m183",
	"m184",
	"m185",
	"m186",
	"m187",
	"m188",
	"m189",
	"m190",
	"m191",
	"m192",
	"m193",
	"m194",
	"m195",
	"m196",
	"m197",
	"m198",
	"m199",
}

// nameCalls calls each of the methods by the language's rules.
var nameCalls = []struct {
	what string
	inst func() interface{}
	call []func(x int) int
}{
	{"value", func() interface{} { return nv }, []func(x int) int{
		func(x int) int { return nv.a(x) },
		func(x int) int { return nv.B(x) },
		func(x int) int { return nv.aa(x) },
		func(x int) int { return nv.BB(x) },
		func(x int) int { return nv.aaa(x) },
		func(x int) int { return nv.BBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nv.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nv.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nv.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nv.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nv.__(x) },
		func(x int) int { return nv._a(x) },
		func(x int) int { return nv._A(x) },
		func(x int) int { return nv.é(x) },
		func(x int) int { return nv.éa(x) },
		func(x int) int { return nv.ée(x) },
		func(x int) int { return nv.É(x) },
		func(x int) int { return nv.Éa(x) },
		func(x int) int { return nv.世(x) },
		func(x int) int { return nv.世界(x) },
		func(x int) int { return nv.aé(x) },
		func(x int) int { return nv.Aé(x) },
		func(x int) int { return nv.aÉ(x) },
		func(x int) int { return nv.x1(x) },
		func(x int) int { return nv.x10(x) },
		func(x int) int { return nv.x100(x) },
		func(x int) int { return nv.X1(x) },
		func(x int) int { return nv.X10(x) },
		func(x int) int { return nv.string(x) },
		func(x int) int { return nv.String(x) },
		func(x int) int { return nv.error(x) },
		func(x int) int { return nv.Error(x) },
		func(x int) int { return nv.len(x) },
		func(x int) int { return nv.init_(x) },
		func(x int) int { return nv.main(x) },
		func(x int) int { return nv.glob(x) },
		func(x int) int { return nv.func1(x) },
		func(x int) int { return nv.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nv.éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nv.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nv.m0(x) },
		func(x int) int { return nv.m1(x) },
		func(x int) int { return nv.m2(x) },
		func(x int) int { return nv.m3(x) },
		func(x int) int { return nv.m4(x) },
		func(x int) int { return nv.m5(x) },
		func(x int) int { return nv.m6(x) },
		func(x int) int { return nv.m7(x) },
		func(x int) int { return nv.m8(x) },
		func(x int) int { return nv.m9(x) },
		func(x int) int { return nv.m10(x) },
		func(x int) int { return nv.m11(x) },
		func(x int) int { return nv.m12(x) },
		func(x int) int { return nv.m13(x) },
		func(x int) int { return nv.m14(x) },
		func(x int) int { return nv.m15(x) },
		func(x int) int { return nv.m16(x) },
		func(x int) int { return nv.m17(x) },
		func(x int) int { return nv.m18(x) },
		func(x int) int { return nv.m19(x) },
		func(x int) int { return nv.m20(x) },
		func(x int) int { return nv.m21(x) },
		func(x int) int { return nv.m22(x) },
		func(x int) int { return nv.m23(x) },
		func(x int) int { return nv.m24(x) },
		func(x int) int { return nv.m25(x) },
		func(x int) int { return nv.m26(x) },
		func(x int) int { return nv.m27(x) },
		func(x int) int { return nv.m28(x) },
		func(x int) int { return nv.m29(x) },
		func(x int) int { return nv.m30(x) },
		func(x int) int { return nv.m31(x) },
		func(x int) int { return nv.m32(x) },
		func(x int) int { return nv.m33(x) },
		func(x int) int { return nv.m34(x) },
		func(x int) int { return nv.m35(x) },
		func(x int) int { return nv.m36(x) },
		func(x int) int { return nv.m37(x) },
		func(x int) int { return nv.m38(x) },
		func(x int) int { return nv.m39(x) },
		func(x int) int { return nv.m40(x) },
		func(x int) int { return nv.m41(x) },
		func(x int) int { return nv.m42(x) },
		func(x int) int { return nv.m43(x) },
		func(x int) int { return nv.m44(x) },
		func(x int) int { return nv.m45(x) },
		func(x int) int { return nv.m46(x) },
		func(x int) int { return nv.m47(x) },
		func(x int) int { return nv.m48(x) },
		func(x int) int { return nv.m49(x) },
		func(x int) int { return nv.m50(x) },
		func(x int) int { return nv.m51(x) },
		func(x int) int { return nv.m52(x) },
		func(x int) int { return nv.m53(x) },
		func(x int) int { return nv.m54(x) },
		func(x int) int { return nv.m55(x) },
		func(x int) int { return nv.m56(x) },
		func(x int) int { return nv.m57(x) },
		func(x int) int { return nv.m58(x) },
		func(x int) int { return nv.m59(x) },
		func(x int) int { return nv.m60(x) },
		func(x int) int { return nv.m61(x) },
		func(x int) int { return nv.m62(x) },
		func(x int) int { return nv.m63(x) },
		func(x int) int { return nv.m64(x) },
		func(x int) int { return nv.m65(x) },
		func(x int) int { return nv.m66(x) },
		func(x int) int { return nv.m67(x) },
		func(x int) int { return nv.m68(x) },
		func(x int) int { return nv.m69(x) },
		func(x int) int { return nv.m70(x) },
		func(x int) int { return nv.m71(x) },
		func(x int) int { return nv.m72(x) },
		func(x int) int { return nv.m73(x) },
		func(x int) int { return nv.m74(x) },
		func(x int) int { return nv.m75(x) },
		func(x int) int { return nv.m76(x) },
		func(x int) int { return nv.m77(x) },
		func(x int) int { return nv.m78(x) },
		func(x int) int { return nv.m79(x) },
		func(x int) int { return nv.m80(x) },
		func(x int) int { return nv.m81(x) },
		func(x int) int { return nv.m82(x) },
		func(x int) int { return nv.m83(x) },
		func(x int) int { return nv.m84(x) },
		func(x int) int { return nv.m85(x) },
		func(x int) int { return nv.m86(x) },
		func(x int) int { return nv.m87(x) },
		func(x int) int { return nv.m88(x) },
		func(x int) int { return nv.m89(x) },
		func(x int) int { return nv.m90(x) },
		func(x int) int { return nv.m91(x) },
		func(x int) int { return nv.m92(x) },
		func(x int) int { return nv.m93(x) },
		func(x int) int { return nv.m94(x) },
		func(x int) int { return nv.m95(x) },
		func(x int) int { return nv.m96(x) },
		func(x int) int { return nv.m97(x) },
		func(x int) int { return nv.m98(x) },
		func(x int) int { return nv.m99(x) },
		func(x int) int { return nv.m100(x) },
		func(x int) int { return nv.m101(x) },
		func(x int) int { return nv.m102(x) },
		func(x int) int { return nv.m103(x) },
		func(x int) int { return nv.m104(x) },
		func(x int) int { return nv.m105(x) },
		func(x int) int { return nv.m106(x) },
		func(x int) int { return nv.m107(x) },
		func(x int) int { return nv.m108(x) },
		func(x int) int { return nv.m109(x) },
		func(x int) int { return nv.m110(x) },
		func(x int) int { return nv.m111(x) },
		func(x int) int { return nv.m112(x) },
		func(x int) int { return nv.m113(x) },
		func(x int) int { return nv.m114(x) },
		func(x int) int { return nv.m115(x) },
		func(x int) int { return nv.m116(x) },
		func(x int) int { return nv.m117(x) },
		func(x int) int { return nv.m118(x) },
		func(x int) int { return nv.m119(x) },
		func(x int) int { return nv.m120(x) },
		func(x int) int { return nv.m121(x) },
		func(x int) int { return nv.m122(x) },
		func(x int) int { return nv.m123(x) },
		func(x int) int { return nv.m124(x) },
		func(x int) int { return nv.m125(x) },
		func(x int) int { return nv.m126(x) },
		func(x int) int { return nv.m127(x) },
		func(x int) int { return nv.m128(x) },
		func(x int) int { return nv.m129(x) },
		func(x int) int { return nv.m130(x) },
		func(x int) int { return nv.m131(x) },
		func(x int) int { return nv.m132(x) },
		func(x int) int { return nv.m133(x) },
		func(x int) int { return nv.m134(x) },
		func(x int) int { return nv.m135(x) },
		func(x int) int { return nv.m136(x) },
		func(x int) int { return nv.m137(x) },
		func(x int) int { return nv.m138(x) },
		func(x int) int { return nv.m139(x) },
		func(x int) int { return nv.m140(x) },
		func(x int) int { return nv.m141(x) },
		func(x int) int { return nv.m142(x) },
		func(x int) int { return nv.m143(x) },
		func(x int) int { return nv.m144(x) },
		func(x int) int { return nv.m145(x) },
		func(x int) int { return nv.m146(x) },
		func(x int) int { return nv.m147(x) },
		func(x int) int { return nv.m148(x) },
		func(x int) int { return nv.m149(x) },
		func(x int) int { return nv.m150(x) },
		func(x int) int { return nv.m151(x) },
		func(x int) int { return nv.m152(x) },
		func(x int) int { return nv.m153(x) },
		func(x int) int { return nv.m154(x) },
		func(x int) int { return nv.m155(x) },
		func(x int) int { return nv.m156(x) },
		func(x int) int { return nv.m157(x) },
		func(x int) int { return nv.m158(x) },
		func(x int) int { return nv.m159(x) },
		func(x int) int { return nv.m160(x) },
		func(x int) int { return nv.m161(x) },
		func(x int) int { return nv.m162(x) },
		func(x int) int { return nv.m163(x) },
		func(x int) int { return nv.m164(x) },
		func(x int) int { return nv.m165(x) },
		func(x int) int { return nv.m166(x) },
		func(x int) int { return nv.m167(x) },
		func(x int) int { return nv.m168(x) },
		func(x int) int { return nv.m169(x) },
		func(x int) int { return nv.m170(x) },
		func(x int) int { return nv.m171(x) },
		func(x int) int { return nv.m172(x) },
		func(x int) int { return nv.m173(x) },
		func(x int) int { return nv.m174(x) },
		func(x int) int { return nv.m175(x) },
		func(x int) int { return nv.m176(x) },
		func(x int) int { return nv.m177(x) },
		func(x int) int { return nv.m178(x) },
		func(x int) int { return nv.m179(x) },
		func(x int) int { return nv.m180(x) },
		func(x int) int { return nv.m181(x) },
		func(x int) int { return nv.m182(x) },
		func(x int) int { return nv.m183(x) },
		func(x int) int { return nv.m184(x) },
		func(x int) int { return nv.m185(x) },
		func(x int) int { return nv.m186(x) },
		func(x int) int { return nv.m187(x) },
		func(x int) int { return nv.m188(x) },
		func(x int) int { return nv.m189(x) },
		func(x int) int { return nv.m190(x) },
		func(x int) int { return nv.m191(x) },
		func(x int) int { return nv.m192(x) },
		func(x int) int { return nv.m193(x) },
		func(x int) int { return nv.m194(x) },
		func(x int) int { return nv.m195(x) },
		func(x int) int { return nv.m196(x) },
		func(x int) int { return nv.m197(x) },
		func(x int) int { return nv.m198(x) },
		func(x int) int { return nv.m199(x) },
	}},
	{"pointer", func() interface{} { return np }, []func(x int) int{
		func(x int) int { return np.a(x) },
		func(x int) int { return np.B(x) },
		func(x int) int { return np.aa(x) },
		func(x int) int { return np.BB(x) },
		func(x int) int { return np.aaa(x) },
		func(x int) int { return np.BBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return np.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return np.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return np.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return np.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return np.__(x) },
		func(x int) int { return np._a(x) },
		func(x int) int { return np._A(x) },
		func(x int) int { return np.é(x) },
		func(x int) int { return np.éa(x) },
		func(x int) int { return np.ée(x) },
		func(x int) int { return np.É(x) },
		func(x int) int { return np.Éa(x) },
		func(x int) int { return np.世(x) },
		func(x int) int { return np.世界(x) },
		func(x int) int { return np.aé(x) },
		func(x int) int { return np.Aé(x) },
		func(x int) int { return np.aÉ(x) },
		func(x int) int { return np.x1(x) },
		func(x int) int { return np.x10(x) },
		func(x int) int { return np.x100(x) },
		func(x int) int { return np.X1(x) },
		func(x int) int { return np.X10(x) },
		func(x int) int { return np.string(x) },
		func(x int) int { return np.String(x) },
		func(x int) int { return np.error(x) },
		func(x int) int { return np.Error(x) },
		func(x int) int { return np.len(x) },
		func(x int) int { return np.init_(x) },
		func(x int) int { return np.main(x) },
		func(x int) int { return np.glob(x) },
		func(x int) int { return np.func1(x) },
		func(x int) int { return np.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return np.éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return np.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return np.m0(x) },
		func(x int) int { return np.m1(x) },
		func(x int) int { return np.m2(x) },
		func(x int) int { return np.m3(x) },
		func(x int) int { return np.m4(x) },
		func(x int) int { return np.m5(x) },
		func(x int) int { return np.m6(x) },
		func(x int) int { return np.m7(x) },
		func(x int) int { return np.m8(x) },
		func(x int) int { return np.m9(x) },
		func(x int) int { return np.m10(x) },
		func(x int) int { return np.m11(x) },
		func(x int) int { return np.m12(x) },
		func(x int) int { return np.m13(x) },
		func(x int) int { return np.m14(x) },
		func(x int) int { return np.m15(x) },
		func(x int) int { return np.m16(x) },
		func(x int) int { return np.m17(x) },
		func(x int) int { return np.m18(x) },
		func(x int) int { return np.m19(x) },
		func(x int) int { return np.m20(x) },
		func(x int) int { return np.m21(x) },
		func(x int) int { return np.m22(x) },
		func(x int) int { return np.m23(x) },
		func(x int) int { return np.m24(x) },
		func(x int) int { return np.m25(x) },
		func(x int) int { return np.m26(x) },
		func(x int) int { return np.m27(x) },
		func(x int) int { return np.m28(x) },
		func(x int) int { return np.m29(x) },
		func(x int) int { return np.m30(x) },
		func(x int) int { return np.m31(x) },
		func(x int) int { return np.m32(x) },
		func(x int) int { return np.m33(x) },
		func(x int) int { return np.m34(x) },
		func(x int) int { return np.m35(x) },
		func(x int) int { return np.m36(x) },
		func(x int) int { return np.m37(x) },
		func(x int) int { return np.m38(x) },
		func(x int) int { return np.m39(x) },
		func(x int) int { return np.m40(x) },
		func(x int) int { return np.m41(x) },
		func(x int) int { return np.m42(x) },
		func(x int) int { return np.m43(x) },
		func(x int) int { return np.m44(x) },
		func(x int) int { return np.m45(x) },
		func(x int) int { return np.m46(x) },
		func(x int) int { return np.m47(x) },
		func(x int) int { return np.m48(x) },
		func(x int) int { return np.m49(x) },
		func(x int) int { return np.m50(x) },
		func(x int) int { return np.m51(x) },
		func(x int) int { return np.m52(x) },
		func(x int) int { return np.m53(x) },
		func(x int) int { return np.m54(x) },
		func(x int) int { return np.m55(x) },
		func(x int) int { return np.m56(x) },
		func(x int) int { return np.m57(x) },
		func(x int) int { return np.m58(x) },
		func(x int) int { return np.m59(x) },
		func(x int) int { return np.m60(x) },
		func(x int) int { return np.m61(x) },
		func(x int) int { return np.m62(x) },
		func(x int) int { return np.m63(x) },
		func(x int) int { return np.m64(x) },
		func(x int) int { return np.m65(x) },
		func(x int) int { return np.m66(x) },
		func(x int) int { return np.m67(x) },
		func(x int) int { return np.m68(x) },
		func(x int) int { return np.m69(x) },
		func(x int) int { return np.m70(x) },
		func(x int) int { return np.m71(x) },
		func(x int) int { return np.m72(x) },
		func(x int) int { return np.m73(x) },
		func(x int) int { return np.m74(x) },
		func(x int) int { return np.m75(x) },
		func(x int) int { return np.m76(x) },
		func(x int) int { return np.m77(x) },
		func(x int) int { return np.m78(x) },
		func(x int) int { return np.m79(x) },
		func(x int) int { return np.m80(x) },
		func(x int) int { return np.m81(x) },
		func(x int) int { return np.m82(x) },
		func(x int) int { return np.m83(x) },
		func(x int) int { return np.m84(x) },
		func(x int) int { return np.m85(x) },
		func(x int) int { return np.m86(x) },
		func(x int) int { return np.m87(x) },
		func(x int) int { return np.m88(x) },
		func(x int) int { return np.m89(x) },
		func(x int) int { return np.m90(x) },
		func(x int) int { return np.m91(x) },
		func(x int) int { return np.m92(x) },
		func(x int) int { return np.m93(x) },
		func(x int) int { return np.m94(x) },
		func(x int) int { return np.m95(x) },
		func(x int) int { return np.m96(x) },
		func(x int) int { return np.m97(x) },
		func(x int) int { return np.m98(x) },
		func(x int) int { return np.m99(x) },
		func(x int) int { return np.m100(x) },
		func(x int) int { return np.m101(x) },
		func(x int) int { return np.m102(x) },
		func(x int) int { return np.m103(x) },
		func(x int) int { return np.m104(x) },
		func(x int) int { return np.m105(x) },
		func(x int) int { return np.m106(x) },
		func(x int) int { return np.m107(x) },
		func(x int) int { return np.m108(x) },
		func(x int) int { return np.m109(x) },
		func(x int) int { return np.m110(x) },
		func(x int) int { return np.m111(x) },
		func(x int) int { return np.m112(x) },
		func(x int) int { return np.m113(x) },
		func(x int) int { return np.m114(x) },
		func(x int) int { return np.m115(x) },
		func(x int) int { return np.m116(x) },
		func(x int) int { return np.m117(x) },
		func(x int) int { return np.m118(x) },
		func(x int) int { return np.m119(x) },
		func(x int) int { return np.m120(x) },
		func(x int) int { return np.m121(x) },
		func(x int) int { return np.m122(x) },
		func(x int) int { return np.m123(x) },
		func(x int) int { return np.m124(x) },
		func(x int) int { return np.m125(x) },
		func(x int) int { return np.m126(x) },
		func(x int) int { return np.m127(x) },
		func(x int) int { return np.m128(x) },
		func(x int) int { return np.m129(x) },
		func(x int) int { return np.m130(x) },
		func(x int) int { return np.m131(x) },
		func(x int) int { return np.m132(x) },
		func(x int) int { return np.m133(x) },
		func(x int) int { return np.m134(x) },
		func(x int) int { return np.m135(x) },
		func(x int) int { return np.m136(x) },
		func(x int) int { return np.m137(x) },
		func(x int) int { return np.m138(x) },
		func(x int) int { return np.m139(x) },
		func(x int) int { return np.m140(x) },
		func(x int) int { return np.m141(x) },
		func(x int) int { return np.m142(x) },
		func(x int) int { return np.m143(x) },
		func(x int) int { return np.m144(x) },
		func(x int) int { return np.m145(x) },
		func(x int) int { return np.m146(x) },
		func(x int) int { return np.m147(x) },
		func(x int) int { return np.m148(x) },
		func(x int) int { return np.m149(x) },
		func(x int) int { return np.m150(x) },
		func(x int) int { return np.m151(x) },
		func(x int) int { return np.m152(x) },
		func(x int) int { return np.m153(x) },
		func(x int) int { return np.m154(x) },
		func(x int) int { return np.m155(x) },
		func(x int) int { return np.m156(x) },
		func(x int) int { return np.m157(x) },
		func(x int) int { return np.m158(x) },
		func(x int) int { return np.m159(x) },
		func(x int) int { return np.m160(x) },
		func(x int) int { return np.m161(x) },
		func(x int) int { return np.m162(x) },
		func(x int) int { return np.m163(x) },
		func(x int) int { return np.m164(x) },
		func(x int) int { return np.m165(x) },
		func(x int) int { return np.m166(x) },
		func(x int) int { return np.m167(x) },
		func(x int) int { return np.m168(x) },
		func(x int) int { return np.m169(x) },
		func(x int) int { return np.m170(x) },
		func(x int) int { return np.m171(x) },
		func(x int) int { return np.m172(x) },
		func(x int) int { return np.m173(x) },
		func(x int) int { return np.m174(x) },
		func(x int) int { return np.m175(x) },
		func(x int) int { return np.m176(x) },
		func(x int) int { return np.m177(x) },
		func(x int) int { return np.m178(x) },
		func(x int) int { return np.m179(x) },
		func(x int) int { return np.m180(x) },
		func(x int) int { return np.m181(x) },
		func(x int) int { return np.m182(x) },
		func(x int) int { return np.m183(x) },
		func(x int) int { return np.m184(x) },
		func(x int) int { return np.m185(x) },
		func(x int) int { return np.m186(x) },
		func(x int) int { return np.m187(x) },
		func(x int) int { return np.m188(x) },
		func(x int) int { return np.m189(x) },
		func(x int) int { return np.m190(x) },
		func(x int) int { return np.m191(x) },
		func(x int) int { return np.m192(x) },
		func(x int) int { return np.m193(x) },
		func(x int) int { return np.m194(x) },
		func(x int) int { return np.m195(x) },
		func(x int) int { return np.m196(x) },
		func(x int) int { return np.m197(x) },
		func(x int) int { return np.m198(x) },
		func(x int) int { return np.m199(x) },
	}},
	{"integer", func() interface{} { return ni }, []func(x int) int{
		func(x int) int { return ni.a(x) },
		func(x int) int { return ni.B(x) },
		func(x int) int { return ni.aa(x) },
		func(x int) int { return ni.BB(x) },
		func(x int) int { return ni.aaa(x) },
		func(x int) int { return ni.BBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ni.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ni.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ni.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ni.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ni.__(x) },
		func(x int) int { return ni._a(x) },
		func(x int) int { return ni._A(x) },
		func(x int) int { return ni.é(x) },
		func(x int) int { return ni.éa(x) },
		func(x int) int { return ni.ée(x) },
		func(x int) int { return ni.É(x) },
		func(x int) int { return ni.Éa(x) },
		func(x int) int { return ni.世(x) },
		func(x int) int { return ni.世界(x) },
		func(x int) int { return ni.aé(x) },
		func(x int) int { return ni.Aé(x) },
		func(x int) int { return ni.aÉ(x) },
		func(x int) int { return ni.x1(x) },
		func(x int) int { return ni.x10(x) },
		func(x int) int { return ni.x100(x) },
		func(x int) int { return ni.X1(x) },
		func(x int) int { return ni.X10(x) },
		func(x int) int { return ni.string(x) },
		func(x int) int { return ni.String(x) },
		func(x int) int { return ni.error(x) },
		func(x int) int { return ni.Error(x) },
		func(x int) int { return ni.len(x) },
		func(x int) int { return ni.init_(x) },
		func(x int) int { return ni.main(x) },
		func(x int) int { return ni.glob(x) },
		func(x int) int { return ni.func1(x) },
		func(x int) int { return ni.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ni.éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ni.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ni.m0(x) },
		func(x int) int { return ni.m1(x) },
		func(x int) int { return ni.m2(x) },
		func(x int) int { return ni.m3(x) },
		func(x int) int { return ni.m4(x) },
		func(x int) int { return ni.m5(x) },
		func(x int) int { return ni.m6(x) },
		func(x int) int { return ni.m7(x) },
		func(x int) int { return ni.m8(x) },
		func(x int) int { return ni.m9(x) },
		func(x int) int { return ni.m10(x) },
		func(x int) int { return ni.m11(x) },
		func(x int) int { return ni.m12(x) },
		func(x int) int { return ni.m13(x) },
		func(x int) int { return ni.m14(x) },
		func(x int) int { return ni.m15(x) },
		func(x int) int { return ni.m16(x) },
		func(x int) int { return ni.m17(x) },
		func(x int) int { return ni.m18(x) },
		func(x int) int { return ni.m19(x) },
		func(x int) int { return ni.m20(x) },
		func(x int) int { return ni.m21(x) },
		func(x int) int { return ni.m22(x) },
		func(x int) int { return ni.m23(x) },
		func(x int) int { return ni.m24(x) },
		func(x int) int { return ni.m25(x) },
		func(x int) int { return ni.m26(x) },
		func(x int) int { return ni.m27(x) },
		func(x int) int { return ni.m28(x) },
		func(x int) int { return ni.m29(x) },
		func(x int) int { return ni.m30(x) },
		func(x int) int { return ni.m31(x) },
		func(x int) int { return ni.m32(x) },
		func(x int) int { return ni.m33(x) },
		func(x int) int { return ni.m34(x) },
		func(x int) int { return ni.m35(x) },
		func(x int) int { return ni.m36(x) },
		func(x int) int { return ni.m37(x) },
		func(x int) int { return ni.m38(x) },
		func(x int) int { return ni.m39(x) },
		func(x int) int { return ni.m40(x) },
		func(x int) int { return ni.m41(x) },
		func(x int) int { return ni.m42(x) },
		func(x int) int { return ni.m43(x) },
		func(x int) int { return ni.m44(x) },
		func(x int) int { return ni.m45(x) },
		func(x int) int { return ni.m46(x) },
		func(x int) int { return ni.m47(x) },
		func(x int) int { return ni.m48(x) },
		func(x int) int { return ni.m49(x) },
		func(x int) int { return ni.m50(x) },
		func(x int) int { return ni.m51(x) },
		func(x int) int { return ni.m52(x) },
		func(x int) int { return ni.m53(x) },
		func(x int) int { return ni.m54(x) },
		func(x int) int { return ni.m55(x) },
		func(x int) int { return ni.m56(x) },
		func(x int) int { return ni.m57(x) },
		func(x int) int { return ni.m58(x) },
		func(x int) int { return ni.m59(x) },
		func(x int) int { return ni.m60(x) },
		func(x int) int { return ni.m61(x) },
		func(x int) int { return ni.m62(x) },
		func(x int) int { return ni.m63(x) },
		func(x int) int { return ni.m64(x) },
		func(x int) int { return ni.m65(x) },
		func(x int) int { return ni.m66(x) },
		func(x int) int { return ni.m67(x) },
		func(x int) int { return ni.m68(x) },
		func(x int) int { return ni.m69(x) },
		func(x int) int { return ni.m70(x) },
		func(x int) int { return ni.m71(x) },
		func(x int) int { return ni.m72(x) },
		func(x int) int { return ni.m73(x) },
		func(x int) int { return ni.m74(x) },
		func(x int) int { return ni.m75(x) },
		func(x int) int { return ni.m76(x) },
		func(x int) int { return ni.m77(x) },
		func(x int) int { return ni.m78(x) },
		func(x int) int { return ni.m79(x) },
		func(x int) int { return ni.m80(x) },
		func(x int) int { return ni.m81(x) },
		func(x int) int { return ni.m82(x) },
		func(x int) int { return ni.m83(x) },
		func(x int) int { return ni.m84(x) },
		func(x int) int { return ni.m85(x) },
		func(x int) int { return ni.m86(x) },
		func(x int) int { return ni.m87(x) },
		func(x int) int { return ni.m88(x) },
		func(x int) int { return ni.m89(x) },
		func(x int) int { return ni.m90(x) },
		func(x int) int { return ni.m91(x) },
		func(x int) int { return ni.m92(x) },
		func(x int) int { return ni.m93(x) },
		func(x int) int { return ni.m94(x) },
		func(x int) int { return ni.m95(x) },
		func(x int) int { return ni.m96(x) },
		func(x int) int { return ni.m97(x) },
		func(x int) int { return ni.m98(x) },
		func(x int) int { return ni.m99(x) },
		func(x int) int { return ni.m100(x) },
		func(x int) int { return ni.m101(x) },
		func(x int) int { return ni.m102(x) },
		func(x int) int { return ni.m103(x) },
		func(x int) int { return ni.m104(x) },
		func(x int) int { return ni.m105(x) },
		func(x int) int { return ni.m106(x) },
		func(x int) int { return ni.m107(x) },
		func(x int) int { return ni.m108(x) },
		func(x int) int { return ni.m109(x) },
		func(x int) int { return ni.m110(x) },
		func(x int) int { return ni.m111(x) },
		func(x int) int { return ni.m112(x) },
		func(x int) int { return ni.m113(x) },
		func(x int) int { return ni.m114(x) },
		func(x int) int { return ni.m115(x) },
		func(x int) int { return ni.m116(x) },
		func(x int) int { return ni.m117(x) },
		func(x int) int { return ni.m118(x) },
		func(x int) int { return ni.m119(x) },
		func(x int) int { return ni.m120(x) },
		func(x int) int { return ni.m121(x) },
		func(x int) int { return ni.m122(x) },
		func(x int) int { return ni.m123(x) },
		func(x int) int { return ni.m124(x) },
		func(x int) int { return ni.m125(x) },
		func(x int) int { return ni.m126(x) },
		func(x int) int { return ni.m127(x) },
		func(x int) int { return ni.m128(x) },
		func(x int) int { return ni.m129(x) },
		func(x int) int { return ni.m130(x) },
		func(x int) int { return ni.m131(x) },
		func(x int) int { return ni.m132(x) },
		func(x int) int { return ni.m133(x) },
		func(x int) int { return ni.m134(x) },
		func(x int) int { return ni.m135(x) },
		func(x int) int { return ni.m136(x) },
		func(x int) int { return ni.m137(x) },
		func(x int) int { return ni.m138(x) },
		func(x int) int { return ni.m139(x) },
		func(x int) int { return ni.m140(x) },
		func(x int) int { return ni.m141(x) },
		func(x int) int { return ni.m142(x) },
		func(x int) int { return ni.m143(x) },
		func(x int) int { return ni.m144(x) },
		func(x int) int { return ni.m145(x) },
		func(x int) int { return ni.m146(x) },
		func(x int) int { return ni.m147(x) },
		func(x int) int { return ni.m148(x) },
		func(x int) int { return ni.m149(x) },
		func(x int) int { return ni.m150(x) },
		func(x int) int { return ni.m151(x) },
		func(x int) int { return ni.m152(x) },
		func(x int) int { return ni.m153(x) },
		func(x int) int { return ni.m154(x) },
		func(x int) int { return ni.m155(x) },
		func(x int) int { return ni.m156(x) },
		func(x int) int { return ni.m157(x) },
		func(x int) int { return ni.m158(x) },
		func(x int) int { return ni.m159(x) },
		func(x int) int { return ni.m160(x) },
		func(x int) int { return ni.m161(x) },
		func(x int) int { return ni.m162(x) },
		func(x int) int { return ni.m163(x) },
		func(x int) int { return ni.m164(x) },
		func(x int) int { return ni.m165(x) },
		func(x int) int { return ni.m166(x) },
		func(x int) int { return ni.m167(x) },
		func(x int) int { return ni.m168(x) },
		func(x int) int { return ni.m169(x) },
		func(x int) int { return ni.m170(x) },
		func(x int) int { return ni.m171(x) },
		func(x int) int { return ni.m172(x) },
		func(x int) int { return ni.m173(x) },
		func(x int) int { return ni.m174(x) },
		func(x int) int { return ni.m175(x) },
		func(x int) int { return ni.m176(x) },
		func(x int) int { return ni.m177(x) },
		func(x int) int { return ni.m178(x) },
		func(x int) int { return ni.m179(x) },
		func(x int) int { return ni.m180(x) },
		func(x int) int { return ni.m181(x) },
		func(x int) int { return ni.m182(x) },
		func(x int) int { return ni.m183(x) },
		func(x int) int { return ni.m184(x) },
		func(x int) int { return ni.m185(x) },
		func(x int) int { return ni.m186(x) },
		func(x int) int { return ni.m187(x) },
		func(x int) int { return ni.m188(x) },
		func(x int) int { return ni.m189(x) },
		func(x int) int { return ni.m190(x) },
		func(x int) int { return ni.m191(x) },
		func(x int) int { return ni.m192(x) },
		func(x int) int { return ni.m193(x) },
		func(x int) int { return ni.m194(x) },
		func(x int) int { return ni.m195(x) },
		func(x int) int { return ni.m196(x) },
		func(x int) int { return ni.m197(x) },
		func(x int) int { return ni.m198(x) },
		func(x int) int { return ni.m199(x) },
	}},
	{"embedded value", func() interface{} { return ne }, []func(x int) int{
		func(x int) int { return ne.a(x) },
		func(x int) int { return ne.B(x) },
		func(x int) int { return ne.aa(x) },
		func(x int) int { return ne.BB(x) },
		func(x int) int { return ne.aaa(x) },
		func(x int) int { return ne.BBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return ne.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return ne.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ne.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ne.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return ne.__(x) },
		func(x int) int { return ne._a(x) },
		func(x int) int { return ne._A(x) },
		func(x int) int { return ne.é(x) },
		func(x int) int { return ne.éa(x) },
		func(x int) int { return ne.ée(x) },
		func(x int) int { return ne.É(x) },
		func(x int) int { return ne.Éa(x) },
		func(x int) int { return ne.世(x) },
		func(x int) int { return ne.世界(x) },
		func(x int) int { return ne.aé(x) },
		func(x int) int { return ne.Aé(x) },
		func(x int) int { return ne.aÉ(x) },
		func(x int) int { return ne.x1(x) },
		func(x int) int { return ne.x10(x) },
		func(x int) int { return ne.x100(x) },
		func(x int) int { return ne.X1(x) },
		func(x int) int { return ne.X10(x) },
		func(x int) int { return ne.string(x) },
		func(x int) int { return ne.String(x) },
		func(x int) int { return ne.error(x) },
		func(x int) int { return ne.Error(x) },
		func(x int) int { return ne.len(x) },
		func(x int) int { return ne.init_(x) },
		func(x int) int { return ne.main(x) },
		func(x int) int { return ne.glob(x) },
		func(x int) int { return ne.func1(x) },
		func(x int) int { return ne.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ne.éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ne.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return ne.m0(x) },
		func(x int) int { return ne.m1(x) },
		func(x int) int { return ne.m2(x) },
		func(x int) int { return ne.m3(x) },
		func(x int) int { return ne.m4(x) },
		func(x int) int { return ne.m5(x) },
		func(x int) int { return ne.m6(x) },
		func(x int) int { return ne.m7(x) },
		func(x int) int { return ne.m8(x) },
		func(x int) int { return ne.m9(x) },
		func(x int) int { return ne.m10(x) },
		func(x int) int { return ne.m11(x) },
		func(x int) int { return ne.m12(x) },
		func(x int) int { return ne.m13(x) },
		func(x int) int { return ne.m14(x) },
		func(x int) int { return ne.m15(x) },
		func(x int) int { return ne.m16(x) },
		func(x int) int { return ne.m17(x) },
		func(x int) int { return ne.m18(x) },
		func(x int) int { return ne.m19(x) },
		func(x int) int { return ne.m20(x) },
		func(x int) int { return ne.m21(x) },
		func(x int) int { return ne.m22(x) },
		func(x int) int { return ne.m23(x) },
		func(x int) int { return ne.m24(x) },
		func(x int) int { return ne.m25(x) },
		func(x int) int { return ne.m26(x) },
		func(x int) int { return ne.m27(x) },
		func(x int) int { return ne.m28(x) },
		func(x int) int { return ne.m29(x) },
		func(x int) int { return ne.m30(x) },
		func(x int) int { return ne.m31(x) },
		func(x int) int { return ne.m32(x) },
		func(x int) int { return ne.m33(x) },
		func(x int) int { return ne.m34(x) },
		func(x int) int { return ne.m35(x) },
		func(x int) int { return ne.m36(x) },
		func(x int) int { return ne.m37(x) },
		func(x int) int { return ne.m38(x) },
		func(x int) int { return ne.m39(x) },
		func(x int) int { return ne.m40(x) },
		func(x int) int { return ne.m41(x) },
		func(x int) int { return ne.m42(x) },
		func(x int) int { return ne.m43(x) },
		func(x int) int { return ne.m44(x) },
		func(x int) int { return ne.m45(x) },
		func(x int) int { return ne.m46(x) },
		func(x int) int { return ne.m47(x) },
		func(x int) int { return ne.m48(x) },
		func(x int) int { return ne.m49(x) },
		func(x int) int { return ne.m50(x) },
		func(x int) int { return ne.m51(x) },
		func(x int) int { return ne.m52(x) },
		func(x int) int { return ne.m53(x) },
		func(x int) int { return ne.m54(x) },
		func(x int) int { return ne.m55(x) },
		func(x int) int { return ne.m56(x) },
		func(x int) int { return ne.m57(x) },
		func(x int) int { return ne.m58(x) },
		func(x int) int { return ne.m59(x) },
		func(x int) int { return ne.m60(x) },
		func(x int) int { return ne.m61(x) },
		func(x int) int { return ne.m62(x) },
		func(x int) int { return ne.m63(x) },
		func(x int) int { return ne.m64(x) },
		func(x int) int { return ne.m65(x) },
		func(x int) int { return ne.m66(x) },
		func(x int) int { return ne.m67(x) },
		func(x int) int { return ne.m68(x) },
		func(x int) int { return ne.m69(x) },
		func(x int) int { return ne.m70(x) },
		func(x int) int { return ne.m71(x) },
		func(x int) int { return ne.m72(x) },
		func(x int) int { return ne.m73(x) },
		func(x int) int { return ne.m74(x) },
		func(x int) int { return ne.m75(x) },
		func(x int) int { return ne.m76(x) },
		func(x int) int { return ne.m77(x) },
		func(x int) int { return ne.m78(x) },
		func(x int) int { return ne.m79(x) },
		func(x int) int { return ne.m80(x) },
		func(x int) int { return ne.m81(x) },
		func(x int) int { return ne.m82(x) },
		func(x int) int { return ne.m83(x) },
		func(x int) int { return ne.m84(x) },
		func(x int) int { return ne.m85(x) },
		func(x int) int { return ne.m86(x) },
		func(x int) int { return ne.m87(x) },
		func(x int) int { return ne.m88(x) },
		func(x int) int { return ne.m89(x) },
		func(x int) int { return ne.m90(x) },
		func(x int) int { return ne.m91(x) },
		func(x int) int { return ne.m92(x) },
		func(x int) int { return ne.m93(x) },
		func(x int) int { return ne.m94(x) },
		func(x int) int { return ne.m95(x) },
		func(x int) int { return ne.m96(x) },
		func(x int) int { return ne.m97(x) },
		func(x int) int { return ne.m98(x) },
		func(x int) int { return ne.m99(x) },
		func(x int) int { return ne.m100(x) },
		func(x int) int { return ne.m101(x) },
		func(x int) int { return ne.m102(x) },
		func(x int) int { return ne.m103(x) },
		func(x int) int { return ne.m104(x) },
		func(x int) int { return ne.m105(x) },
		func(x int) int { return ne.m106(x) },
		func(x int) int { return ne.m107(x) },
		func(x int) int { return ne.m108(x) },
		func(x int) int { return ne.m109(x) },
		func(x int) int { return ne.m110(x) },
		func(x int) int { return ne.m111(x) },
		func(x int) int { return ne.m112(x) },
		func(x int) int { return ne.m113(x) },
		func(x int) int { return ne.m114(x) },
		func(x int) int { return ne.m115(x) },
		func(x int) int { return ne.m116(x) },
		func(x int) int { return ne.m117(x) },
		func(x int) int { return ne.m118(x) },
		func(x int) int { return ne.m119(x) },
		func(x int) int { return ne.m120(x) },
		func(x int) int { return ne.m121(x) },
		func(x int) int { return ne.m122(x) },
		func(x int) int { return ne.m123(x) },
		func(x int) int { return ne.m124(x) },
		func(x int) int { return ne.m125(x) },
		func(x int) int { return ne.m126(x) },
		func(x int) int { return ne.m127(x) },
		func(x int) int { return ne.m128(x) },
		func(x int) int { return ne.m129(x) },
		func(x int) int { return ne.m130(x) },
		func(x int) int { return ne.m131(x) },
		func(x int) int { return ne.m132(x) },
		func(x int) int { return ne.m133(x) },
		func(x int) int { return ne.m134(x) },
		func(x int) int { return ne.m135(x) },
		func(x int) int { return ne.m136(x) },
		func(x int) int { return ne.m137(x) },
		func(x int) int { return ne.m138(x) },
		func(x int) int { return ne.m139(x) },
		func(x int) int { return ne.m140(x) },
		func(x int) int { return ne.m141(x) },
		func(x int) int { return ne.m142(x) },
		func(x int) int { return ne.m143(x) },
		func(x int) int { return ne.m144(x) },
		func(x int) int { return ne.m145(x) },
		func(x int) int { return ne.m146(x) },
		func(x int) int { return ne.m147(x) },
		func(x int) int { return ne.m148(x) },
		func(x int) int { return ne.m149(x) },
		func(x int) int { return ne.m150(x) },
		func(x int) int { return ne.m151(x) },
		func(x int) int { return ne.m152(x) },
		func(x int) int { return ne.m153(x) },
		func(x int) int { return ne.m154(x) },
		func(x int) int { return ne.m155(x) },
		func(x int) int { return ne.m156(x) },
		func(x int) int { return ne.m157(x) },
		func(x int) int { return ne.m158(x) },
		func(x int) int { return ne.m159(x) },
		func(x int) int { return ne.m160(x) },
		func(x int) int { return ne.m161(x) },
		func(x int) int { return ne.m162(x) },
		func(x int) int { return ne.m163(x) },
		func(x int) int { return ne.m164(x) },
		func(x int) int { return ne.m165(x) },
		func(x int) int { return ne.m166(x) },
		func(x int) int { return ne.m167(x) },
		func(x int) int { return ne.m168(x) },
		func(x int) int { return ne.m169(x) },
		func(x int) int { return ne.m170(x) },
		func(x int) int { return ne.m171(x) },
		func(x int) int { return ne.m172(x) },
		func(x int) int { return ne.m173(x) },
		func(x int) int { return ne.m174(x) },
		func(x int) int { return ne.m175(x) },
		func(x int) int { return ne.m176(x) },
		func(x int) int { return ne.m177(x) },
		func(x int) int { return ne.m178(x) },
		func(x int) int { return ne.m179(x) },
		func(x int) int { return ne.m180(x) },
		func(x int) int { return ne.m181(x) },
		func(x int) int { return ne.m182(x) },
		func(x int) int { return ne.m183(x) },
		func(x int) int { return ne.m184(x) },
		func(x int) int { return ne.m185(x) },
		func(x int) int { return ne.m186(x) },
		func(x int) int { return ne.m187(x) },
		func(x int) int { return ne.m188(x) },
		func(x int) int { return ne.m189(x) },
		func(x int) int { return ne.m190(x) },
		func(x int) int { return ne.m191(x) },
		func(x int) int { return ne.m192(x) },
		func(x int) int { return ne.m193(x) },
		func(x int) int { return ne.m194(x) },
		func(x int) int { return ne.m195(x) },
		func(x int) int { return ne.m196(x) },
		func(x int) int { return ne.m197(x) },
		func(x int) int { return ne.m198(x) },
		func(x int) int { return ne.m199(x) },
	}},
	{"embedded pointer", func() interface{} { return nq }, []func(x int) int{
		func(x int) int { return nq.a(x) },
		func(x int) int { return nq.B(x) },
		func(x int) int { return nq.aa(x) },
		func(x int) int { return nq.BB(x) },
		func(x int) int { return nq.aaa(x) },
		func(x int) int { return nq.BBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(x) },
		func(x int) int { return nq.BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB(x) },
		func(x int) int { return nq.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nq.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nq.bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbc(x) },
		func(x int) int { return nq.__(x) },
		func(x int) int { return nq._a(x) },
		func(x int) int { return nq._A(x) },
		func(x int) int { return nq.é(x) },
		func(x int) int { return nq.éa(x) },
		func(x int) int { return nq.ée(x) },
		func(x int) int { return nq.É(x) },
		func(x int) int { return nq.Éa(x) },
		func(x int) int { return nq.世(x) },
		func(x int) int { return nq.世界(x) },
		func(x int) int { return nq.aé(x) },
		func(x int) int { return nq.Aé(x) },
		func(x int) int { return nq.aÉ(x) },
		func(x int) int { return nq.x1(x) },
		func(x int) int { return nq.x10(x) },
		func(x int) int { return nq.x100(x) },
		func(x int) int { return nq.X1(x) },
		func(x int) int { return nq.X10(x) },
		func(x int) int { return nq.string(x) },
		func(x int) int { return nq.String(x) },
		func(x int) int { return nq.error(x) },
		func(x int) int { return nq.Error(x) },
		func(x int) int { return nq.len(x) },
		func(x int) int { return nq.init_(x) },
		func(x int) int { return nq.main(x) },
		func(x int) int { return nq.glob(x) },
		func(x int) int { return nq.func1(x) },
		func(x int) int { return nq.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nq.éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nq.ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé(x) },
		func(x int) int { return nq.m0(x) },
		func(x int) int { return nq.m1(x) },
		func(x int) int { return nq.m2(x) },
		func(x int) int { return nq.m3(x) },
		func(x int) int { return nq.m4(x) },
		func(x int) int { return nq.m5(x) },
		func(x int) int { return nq.m6(x) },
		func(x int) int { return nq.m7(x) },
		func(x int) int { return nq.m8(x) },
		func(x int) int { return nq.m9(x) },
		func(x int) int { return nq.m10(x) },
		func(x int) int { return nq.m11(x) },
		func(x int) int { return nq.m12(x) },
		func(x int) int { return nq.m13(x) },
		func(x int) int { return nq.m14(x) },
		func(x int) int { return nq.m15(x) },
		func(x int) int { return nq.m16(x) },
		func(x int) int { return nq.m17(x) },
		func(x int) int { return nq.m18(x) },
		func(x int) int { return nq.m19(x) },
		func(x int) int { return nq.m20(x) },
		func(x int) int { return nq.m21(x) },
		func(x int) int { return nq.m22(x) },
		func(x int) int { return nq.m23(x) },
		func(x int) int { return nq.m24(x) },
		func(x int) int { return nq.m25(x) },
		func(x int) int { return nq.m26(x) },
		func(x int) int { return nq.m27(x) },
		func(x int) int { return nq.m28(x) },
		func(x int) int { return nq.m29(x) },
		func(x int) int { return nq.m30(x) },
		func(x int) int { return nq.m31(x) },
		func(x int) int { return nq.m32(x) },
		func(x int) int { return nq.m33(x) },
		func(x int) int { return nq.m34(x) },
		func(x int) int { return nq.m35(x) },
		func(x int) int { return nq.m36(x) },
		func(x int) int { return nq.m37(x) },
		func(x int) int { return nq.m38(x) },
		func(x int) int { return nq.m39(x) },
		func(x int) int { return nq.m40(x) },
		func(x int) int { return nq.m41(x) },
		func(x int) int { return nq.m42(x) },
		func(x int) int { return nq.m43(x) },
		func(x int) int { return nq.m44(x) },
		func(x int) int { return nq.m45(x) },
		func(x int) int { return nq.m46(x) },
		func(x int) int { return nq.m47(x) },
		func(x int) int { return nq.m48(x) },
		func(x int) int { return nq.m49(x) },
		func(x int) int { return nq.m50(x) },
		func(x int) int { return nq.m51(x) },
		func(x int) int { return nq.m52(x) },
		func(x int) int { return nq.m53(x) },
		func(x int) int { return nq.m54(x) },
		func(x int) int { return nq.m55(x) },
		func(x int) int { return nq.m56(x) },
		func(x int) int { return nq.m57(x) },
		func(x int) int { return nq.m58(x) },
		func(x int) int { return nq.m59(x) },
		func(x int) int { return nq.m60(x) },
		func(x int) int { return nq.m61(x) },
		func(x int) int { return nq.m62(x) },
		func(x int) int { return nq.m63(x) },
		func(x int) int { return nq.m64(x) },
		func(x int) int { return nq.m65(x) },
		func(x int) int { return nq.m66(x) },
		func(x int) int { return nq.m67(x) },
		func(x int) int { return nq.m68(x) },
		func(x int) int { return nq.m69(x) },
		func(x int) int { return nq.m70(x) },
		func(x int) int { return nq.m71(x) },
		func(x int) int { return nq.m72(x) },
		func(x int) int { return nq.m73(x) },
		func(x int) int { return nq.m74(x) },
		func(x int) int { return nq.m75(x) },
		func(x int) int { return nq.m76(x) },
		func(x int) int { return nq.m77(x) },
		func(x int) int { return nq.m78(x) },
		func(x int) int { return nq.m79(x) },
		func(x int) int { return nq.m80(x) },
		func(x int) int { return nq.m81(x) },
		func(x int) int { return nq.m82(x) },
		func(x int) int { return nq.m83(x) },
		func(x int) int { return nq.m84(x) },
		func(x int) int { return nq.m85(x) },
		func(x int) int { return nq.m86(x) },
		func(x int) int { return nq.m87(x) },
		func(x int) int { return nq.m88(x) },
		func(x int) int { return nq.m89(x) },
		func(x int) int { return nq.m90(x) },
		func(x int) int { return nq.m91(x) },
		func(x int) int { return nq.m92(x) },
		func(x int) int { return nq.m93(x) },
		func(x int) int { return nq.m94(x) },
		func(x int) int { return nq.m95(x) },
		func(x int) int { return nq.m96(x) },
		func(x int) int { return nq.m97(x) },
		func(x int) int { return nq.m98(x) },
		func(x int) int { return nq.m99(x) },
		func(x int) int { return nq.m100(x) },
		func(x int) int { return nq.m101(x) },
		func(x int) int { return nq.m102(x) },
		func(x int) int { return nq.m103(x) },
		func(x int) int { return nq.m104(x) },
		func(x int) int { return nq.m105(x) },
		func(x int) int { return nq.m106(x) },
		func(x int) int { return nq.m107(x) },
		func(x int) int { return nq.m108(x) },
		func(x int) int { return nq.m109(x) },
		func(x int) int { return nq.m110(x) },
		func(x int) int { return nq.m111(x) },
		func(x int) int { return nq.m112(x) },
		func(x int) int { return nq.m113(x) },
		func(x int) int { return nq.m114(x) },
		func(x int) int { return nq.m115(x) },
		func(x int) int { return nq.m116(x) },
		func(x int) int { return nq.m117(x) },
		func(x int) int { return nq.m118(x) },
		func(x int) int { return nq.m119(x) },
		func(x int) int { return nq.m120(x) },
		func(x int) int { return nq.m121(x) },
		func(x int) int { return nq.m122(x) },
		func(x int) int { return nq.m123(x) },
		func(x int) int { return nq.m124(x) },
		func(x int) int { return nq.m125(x) },
		func(x int) int { return nq.m126(x) },
		func(x int) int { return nq.m127(x) },
		func(x int) int { return nq.m128(x) },
		func(x int) int { return nq.m129(x) },
		func(x int) int { return nq.m130(x) },
		func(x int) int { return nq.m131(x) },
		func(x int) int { return nq.m132(x) },
		func(x int) int { return nq.m133(x) },
		func(x int) int { return nq.m134(x) },
		func(x int) int { return nq.m135(x) },
		func(x int) int { return nq.m136(x) },
		func(x int) int { return nq.m137(x) },
		func(x int) int { return nq.m138(x) },
		func(x int) int { return nq.m139(x) },
		func(x int) int { return nq.m140(x) },
		func(x int) int { return nq.m141(x) },
		func(x int) int { return nq.m142(x) },
		func(x int) int { return nq.m143(x) },
		func(x int) int { return nq.m144(x) },
		func(x int) int { return nq.m145(x) },
		func(x int) int { return nq.m146(x) },
		func(x int) int { return nq.m147(x) },
		func(x int) int { return nq.m148(x) },
		func(x int) int { return nq.m149(x) },
		func(x int) int { return nq.m150(x) },
		func(x int) int { return nq.m151(x) },
		func(x int) int { return nq.m152(x) },
		func(x int) int { return nq.m153(x) },
		func(x int) int { return nq.m154(x) },
		func(x int) int { return nq.m155(x) },
		func(x int) int { return nq.m156(x) },
		func(x int) int { return nq.m157(x) },
		func(x int) int { return nq.m158(x) },
		func(x int) int { return nq.m159(x) },
		func(x int) int { return nq.m160(x) },
		func(x int) int { return nq.m161(x) },
		func(x int) int { return nq.m162(x) },
		func(x int) int { return nq.m163(x) },
		func(x int) int { return nq.m164(x) },
		func(x int) int { return nq.m165(x) },
		func(x int) int { return nq.m166(x) },
		func(x int) int { return nq.m167(x) },
		func(x int) int { return nq.m168(x) },
		func(x int) int { return nq.m169(x) },
		func(x int) int { return nq.m170(x) },
		func(x int) int { return nq.m171(x) },
		func(x int) int { return nq.m172(x) },
		func(x int) int { return nq.m173(x) },
		func(x int) int { return nq.m174(x) },
		func(x int) int { return nq.m175(x) },
		func(x int) int { return nq.m176(x) },
		func(x int) int { return nq.m177(x) },
		func(x int) int { return nq.m178(x) },
		func(x int) int { return nq.m179(x) },
		func(x int) int { return nq.m180(x) },
		func(x int) int { return nq.m181(x) },
		func(x int) int { return nq.m182(x) },
		func(x int) int { return nq.m183(x) },
		func(x int) int { return nq.m184(x) },
		func(x int) int { return nq.m185(x) },
		func(x int) int { return nq.m186(x) },
		func(x int) int { return nq.m187(x) },
		func(x int) int { return nq.m188(x) },
		func(x int) int { return nq.m189(x) },
		func(x int) int { return nq.m190(x) },
		func(x int) int { return nq.m191(x) },
		func(x int) int { return nq.m192(x) },
		func(x int) int { return nq.m193(x) },
		func(x int) int { return nq.m194(x) },
		func(x int) int { return nq.m195(x) },
		func(x int) int { return nq.m196(x) },
		func(x int) int { return nq.m197(x) },
		func(x int) int { return nq.m198(x) },
		func(x int) int { return nq.m199(x) },
	}},
}

var (
	nv = nameV{1}
	np = &nameP{2}
	ni = nameI(3)
	ne = nameE{4, nv}
	nq = &nameQ{5, np}
)
